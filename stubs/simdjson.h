// Stand-in for simdjson (not installed): declarations only, enough for the sources that mention it to compile.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
namespace simdjson {
enum error_code { SUCCESS = 0, ERROR = 1 };
inline const char* error_message(error_code) { return "error"; }
struct padded_string { padded_string(const char*, size_t); padded_string(std::string_view); padded_string(); static padded_string load(std::string_view); };
template <class T> struct simdjson_result;
namespace dom {
struct element;
struct array {
    struct iterator { element operator*() const; iterator& operator++(); bool operator!=(const iterator&) const; };
    iterator begin() const; iterator end() const; size_t size() const;
};
struct object {
    struct kv { std::string_view key; };
    simdjson_result<element> operator[](std::string_view) const;
};
struct element {
    template <class T> error_code get(T&) const;
    template <class T> simdjson_result<T> get() const;
    template <class T> bool is() const;
    simdjson_result<element> operator[](std::string_view) const;
    simdjson_result<element> operator[](const char*) const;
    bool is_null() const; bool is_string() const; bool is_array() const; bool is_object() const;
};
struct parser {
    simdjson_result<element> parse(const char*, size_t, bool = true); simdjson_result<element> parse(std::string_view); simdjson_result<element> parse(const std::string&);
    simdjson_result<element> parse(const padded_string&);
    simdjson_result<element> load(const std::string&);
};
} // namespace dom
template <class T> struct simdjson_result {
    error_code get(T&) const; template <class U> error_code get(U&) const;
    error_code error() const; T value() const; operator T() const;
    simdjson_result<dom::element> operator[](std::string_view) const;
    simdjson_result<dom::element> operator[](const char*) const;
};
struct simdjson_error { const char* what() const; error_code error() const; };
} // namespace simdjson
