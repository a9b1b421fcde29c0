// Stand-in for the XML-Parser library, see Tag.h
#pragma once

#include "Tag.h"

#include <cctype>
#include <fstream>
#include <sstream>
#include <variant>

namespace xmlPrs {
namespace detail {
class Reader {
public:
  explicit Reader(const std::string &text) : text(text) {}

  Root read() {
    skip();
    while (text.compare(pos, 2, "<?") == 0 || text.compare(pos, 4, "<!--") == 0) {
      const auto end = text.find('>', pos);
      if (end == std::string::npos) {
        throw Error("unterminated header");
      }
      pos = end + 1;
      skip();
    }
    expect('<');
    Root root(name());
    body(root, root.getName());
    skip();
    if (pos != text.size()) {
      throw Error("content after the root");
    }
    return root;
  }

private:
  void skip() {
    while (pos < text.size() && std::isspace(static_cast<unsigned char>(text[pos]))) {
      ++pos;
    }
  }
  char peek() const { return pos < text.size() ? text[pos] : '\0'; }
  void expect(char c) {
    if (peek() != c) {
      throw Error(std::string("expected ") + c);
    }
    ++pos;
  }
  std::string name() {
    const auto from = pos;
    while (pos < text.size() && !std::isspace(static_cast<unsigned char>(text[pos])) &&
           std::string("<>/=\"").find(text[pos]) == std::string::npos) {
      ++pos;
    }
    if (from == pos) {
      throw Error("expected a name");
    }
    return text.substr(from, pos - from);
  }

  void body(Tag &tag, const std::string &tag_name) {
    while (true) {
      skip();
      if (peek() == '/') {
        ++pos;
        expect('>');
        return;
      }
      if (peek() == '>') {
        ++pos;
        break;
      }
      const auto key = name();
      skip();
      expect('=');
      skip();
      expect('"');
      const auto end = text.find('"', pos);
      if (end == std::string::npos) {
        throw Error("unterminated value");
      }
      tag.getAttributes().emplace(key, text.substr(pos, end - pos));
      pos = end + 1;
    }
    while (true) {
      skip();
      expect('<');
      if (peek() == '/') {
        ++pos;
        if (name() != tag_name) {
          throw Error("closing another tag");
        }
        skip();
        expect('>');
        return;
      }
      if (text.compare(pos, 3, "!--") == 0) {
        const auto end = text.find("-->", pos);
        if (end == std::string::npos) {
          throw Error("unterminated comment");
        }
        pos = end + 3;
        continue;
      }
      const auto nested_name = name();
      body(tag.addNested(nested_name), nested_name);
    }
  }

  const std::string &text;
  std::size_t pos = 0;
};
} // namespace detail

inline std::variant<Root, Error> parse_xml(const std::string &file_name) {
  std::ifstream stream(file_name);
  if (!stream.is_open()) {
    return Error(file_name + " is not readable");
  }
  std::stringstream content;
  content << stream.rdbuf();
  const std::string text = content.str();
  try {
    return detail::Reader(text).read();
  } catch (const Error &e) {
    return e;
  }
}
} // namespace xmlPrs
