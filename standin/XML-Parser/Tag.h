// Stand-in for the XML-Parser library (github.com/andreacasalino/XML-parser), which can't be fetched
// here: the part of its interface that the repository uses, written from those uses.
// Attributes and nested tags are kept in std::unordered_multimap as in the original.
#pragma once

#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <unordered_map>

namespace xmlPrs {
using Name = std::string;
using Value = std::string;

class Error : public std::runtime_error {
public:
  explicit Error(const std::string &what) : std::runtime_error(what) {}
};

class Tag;
using TagPtr = std::unique_ptr<Tag>;

class Tag {
public:
  using Attributes = std::unordered_multimap<Name, Value>;
  using Nested = std::unordered_multimap<Name, TagPtr>;

  Tag() = default;

  const Attributes &getAttributes() const { return attributes; }
  Attributes &getAttributes() { return attributes; }
  const Nested &getNested() const { return nested; }
  Nested &getNested() { return nested; }

  Tag &addNested(const Name &name) { return *nested.emplace(name, std::make_unique<Tag>())->second; }

  // the nested tag with that name, added when there is none
  Tag &operator[](const Name &name) {
    auto it = nested.find(name);
    return it == nested.end() ? addNested(name) : *it->second;
  }

  void printBody(std::ostream &out, const Name &name, const std::string &indent) const {
    out << indent << '<' << name;
    for (const auto &[key, val] : attributes) {
      out << ' ' << key << "=\"" << val << '"';
    }
    if (nested.empty()) {
      out << "/>\n";
      return;
    }
    out << ">\n";
    for (const auto &[key, val] : nested) {
      val->printBody(out, key, indent + "\t");
    }
    out << indent << "</" << name << ">\n";
  }

private:
  Attributes attributes;
  Nested nested;
};

class Root : public Tag {
public:
  explicit Root(const Name &name) : name(name) {}

  const Name &getName() const { return name; }

  void print(std::ostream &out) const {
    out << "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n";
    printBody(out, name, "");
  }

private:
  Name name;
};
} // namespace xmlPrs
