// A strict JSON reader, for output that claims to be JSON.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace json {
struct Bad { std::string why; };
struct Value;
typedef std::shared_ptr<Value> V;
struct Value {
	enum Kind { Null, Bool, Num, Str, Arr, Obj } k = Null; bool b = false; double n = 0;
	std::vector<unsigned> s;              // code points
	std::vector<V> a; std::map<std::string, V> o;
	V get(const std::string &key) const { auto it = o.find(key); if (k != Obj || it == o.end()) throw Bad{"no member " + key}; return it->second; }
	bool has(const std::string &key) const { return k == Obj && o.count(key); }
	long num() const { if (k != Num || n != (double)(long)n) throw Bad{"not an integer"}; return (long)n; }
	const std::vector<V> &arr() const { if (k != Arr) throw Bad{"not an array"}; return a; }
	const std::vector<unsigned> &str() const { if (k != Str) throw Bad{"not a string"}; return s; }
	std::string text() const { std::string r; for (unsigned c : str()) r += c < 256 ? (char)c : '?'; return r; }
	bool boolean() const { if (k != Bool) throw Bad{"not a boolean"}; return b; }
};
struct Reader {
	const std::string &t; size_t i = 0; explicit Reader(const std::string &x) : t(x) {}
	[[noreturn]] void bad(const char *w) { throw Bad{std::string(w) + " at " + std::to_string(i) + ": " + t.substr(i, 40)}; }
	void ws() { while (i < t.size() && t[i] && strchr(" \t\r\n", t[i])) i++; }
	char peek() { return i < t.size() ? t[i] : 0; }
	void lit(const char *s) { if (t.compare(i, strlen(s), s)) bad("token"); i += strlen(s); }
	std::vector<unsigned> string() {
		std::vector<unsigned> r; lit("\"");
		for (;;) { if (i >= t.size()) bad("unterminated string"); unsigned char c = t[i];
			if (c == '"') { i++; return r; } if (c < 0x20) bad("control character in string"); if (c >= 0x80) bad("byte outside ASCII in string");
			if (c != '\\') { r.push_back(c); i++; continue; }
			i++; char k = peek(); i++;
			switch (k) { case '"': case '\\': case '/': r.push_back(k); break; case 'b': r.push_back(8); break; case 'f': r.push_back(12); break; case 'n': r.push_back(10); break; case 'r': r.push_back(13); break; case 't': r.push_back(9); break;
			case 'u': { unsigned v = 0; for (int j = 0; j < 4; j++) { char h = peek(); if (!isxdigit((unsigned char)h)) bad("\\u"); v = v * 16 + (isdigit((unsigned char)h) ? h - '0' : (h | 32) - 'a' + 10); i++; } r.push_back(v); break; }
			default: i--; bad("escape"); }
		}
	}
	V value() {
		ws(); V v = std::make_shared<Value>(); char c = peek();
		if (c == '{') { i++; v->k = Value::Obj; ws(); if (peek() == '}') { i++; return v; }
			for (;;) { ws(); if (peek() != '"') bad("member name"); std::vector<unsigned> k = string(); std::string ks(k.begin(), k.end()); ws(); lit(":"); if (v->o.count(ks)) bad("duplicate member"); v->o[ks] = value(); ws(); if (peek() == ',') { i++; continue; } lit("}"); return v; } }
		if (c == '[') { i++; v->k = Value::Arr; ws(); if (peek() == ']') { i++; return v; } for (;;) { v->a.push_back(value()); ws(); if (peek() == ',') { i++; continue; } lit("]"); return v; } }
		if (c == '"') { v->k = Value::Str; v->s = string(); return v; }
		if (c == 't') { lit("true"); v->k = Value::Bool; v->b = true; return v; }
		if (c == 'f') { lit("false"); v->k = Value::Bool; return v; }
		if (c == 'n') { lit("null"); return v; }
		size_t j = i; if (peek() == '-') i++; if (!isdigit((unsigned char)peek())) bad("value"); if (peek() == '0') i++; else while (isdigit((unsigned char)peek())) i++; if (isdigit((unsigned char)peek())) bad("leading zero");
		v->k = Value::Num; v->n = strtod(t.substr(j, i - j).c_str(), NULL); return v;
	}
};
inline V parse(const std::string &t) { Reader r(t); V v = r.value(); r.ws(); if (r.i != t.size()) r.bad("trailing text"); return v; }
}
