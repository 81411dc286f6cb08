// Stand-in for XmlRpcValue: a tree of parameters. As in the real class, reading a value as another type throws.
#pragma once
#include <cstddef>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace XmlRpc {
class XmlRpcException : public std::runtime_error { public: explicit XmlRpcException(const std::string& m, int = -1) : std::runtime_error(m) {} std::string getMessage() const { return what(); } };
class XmlRpcValue {
public:
    enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
    typedef std::map<std::string, XmlRpcValue> ValueStruct;
    typedef ValueStruct::iterator iterator;
    typedef ValueStruct::const_iterator const_iterator;
    XmlRpcValue() {}
    XmlRpcValue(bool v) : t(TypeBoolean), b(v) {}
    XmlRpcValue(int v) : t(TypeInt), i(v) {}
    XmlRpcValue(double v) : t(TypeDouble), d(v) {}
    XmlRpcValue(const std::string& v) : t(TypeString), s(v) {}
    XmlRpcValue(const char* v) : t(TypeString), s(v) {}
    Type getType() const { return t; }
    bool valid() const { return t != TypeInvalid; }
    int size() const { if (t == TypeArray) return (int)a.size(); if (t == TypeStruct) return (int)m.size(); if (t == TypeString) return (int)s.size(); throw XmlRpcException("type error"); }
    bool hasMember(const std::string& n) const { return t == TypeStruct && m.find(n) != m.end(); }
    operator bool&() { need_or_none(TypeBoolean); return b; }
    operator int&() { need_or_none(TypeInt); return i; }
    operator double&() { need_or_none(TypeDouble); return d; }
    operator std::string&() { need_or_none(TypeString); return s; }
    operator const bool&() const { need(TypeBoolean); return b; }
    operator const int&() const { need(TypeInt); return i; }
    operator const double&() const { need(TypeDouble); return d; }
    operator const std::string&() const { need(TypeString); return s; }
    const XmlRpcValue& operator[](int k) const { need(TypeArray); return a.at(k); }
    XmlRpcValue& operator[](int k) { if (t == TypeInvalid) t = TypeArray; need(TypeArray); if ((int)a.size() <= k) a.resize(k + 1); return a[k]; }
    const XmlRpcValue& operator[](const std::string& k) const { need(TypeStruct); auto e = m.find(k); if (e != m.end()) return e->second; static XmlRpcValue none; return none; }
    const XmlRpcValue& operator[](const char* k) const { return (*this)[std::string(k)]; }
    XmlRpcValue& operator[](const std::string& k) {
        if (t == TypeInvalid) t = TypeStruct; need(TypeStruct);
        return m[k];
    }
    XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
    // (as in the real class, iterating over anything else is undefined)
    iterator begin() { if (t != TypeStruct) __builtin_trap(); return m.begin(); }
    iterator end() { need(TypeStruct); return m.end(); }
    const_iterator begin() const { if (t != TypeStruct) __builtin_trap(); return m.begin(); }
    const_iterator end() const { need(TypeStruct); return m.end(); }
private:
    void need_or_none(Type k) { if (t == TypeInvalid) t = k; need(k); }  // (as in the real class: an absent value becomes the default)
    void need(Type k) const { if (t != k) throw XmlRpcException("type error"); }
    Type t = TypeInvalid; bool b = false; int i = 0; double d = 0; std::string s; std::vector<XmlRpcValue> a; ValueStruct m;
};
}
