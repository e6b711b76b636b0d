// json.h -- an independent JSON reader giving a tree, for the JSON harnesses.
#pragma once
#include "ref.h"
#include <map>

namespace js
{
    using libube::var;
    struct Tree
    {
        enum Kind { NIL, NUM, STR, ARR, MAP } kind = NIL;
        bool isInt = false;
        long l = 0;
        double d = 0;
        std::string s;
        std::vector<Tree> a;
        std::map<std::string, Tree> m;
    };

    inline Tree nul() { return Tree(); }
    inline Tree num(long l) { Tree t; t.kind = Tree::NUM; t.isInt = true; t.l = l; t.d = l; return t; }
    inline Tree num(double d) { Tree t; t.kind = Tree::NUM; t.d = d; return t; }
    inline Tree str(const std::string& s) { Tree t; t.kind = Tree::STR; t.s = s; return t; }

    inline std::string show(const Tree& t)
    {
        std::string r;
        switch (t.kind)
        {
        case Tree::NIL: return "null";
        case Tree::NUM: return t.isInt ? std::to_string(t.l) : ref::fmt(t.d, false);
        case Tree::STR: return mc::quote(t.s);
        case Tree::ARR: for (auto& e : t.a) r += (r.size() ? ", " : "") + show(e); return "[" + r + "]";
        case Tree::MAP: for (auto& e : t.m) r += (r.size() ? ", " : "") + mc::quote(e.first) + ": " + show(e.second); return "{" + r + "}";
        }
        return r;
    }

    // Numbers are equal to a relative eps
    inline bool equal(const Tree& a, const Tree& b, double eps = 0)
    {
        if (a.kind != b.kind) return false;
        switch (a.kind)
        {
        case Tree::NIL: return true;
        case Tree::NUM:
            if (a.isInt && b.isInt) return a.l == b.l;
            return a.d == b.d || std::fabs(a.d - b.d) <= eps * std::fabs(a.d);
        case Tree::STR: return a.s == b.s;
        case Tree::ARR:
            if (a.a.size() != b.a.size()) return false;
            for (size_t i=0; i<a.a.size(); i++) if (!equal(a.a[i], b.a[i], eps)) return false;
            return true;
        case Tree::MAP:
            if (a.m.size() != b.m.size()) return false;
            for (auto i=a.m.begin(), j=b.m.begin(); i!=a.m.end(); ++i, ++j)
                if (i->first != j->first || !equal(i->second, j->second, eps)) return false;
            return true;
        }
        return false;
    }

    // What a variable holds; false if that is not something JSON can hold
    inline bool tree(const var& v, Tree& t)
    {
        t = Tree();
        if (!v.defined()) return true;
        int ty = (int)(long)v.type();
        switch (ty)
        {
        case libube::TYPE_INT: t = num((long)v.get<int>()); return true;
        case libube::TYPE_LONG: t = num(v.get<long>()); return true;
        case libube::TYPE_FLOAT: t = num((double)v.get<float>()); return true;
        case libube::TYPE_DOUBLE: t = num(v.get<double>()); return true;
        case libube::TYPE_ARRAY: break;
        default: return false;
        }
        int at = (int)(long)v.atype(), n = v.size();
        if (at == libube::TYPE_CHAR) { t = str(ref::strOf(v)); return true; }
        if (at == libube::TYPE_PAIR)
        {
            t.kind = Tree::MAP;
            for (int i=0; i<n; i++)
            {
                var k = v.key(i);
                if (!k.defined() || (long)k.type() != libube::TYPE_ARRAY || (long)k.atype() != libube::TYPE_CHAR) return false;
                Tree e;
                if (!tree(v.at(i), e)) return false;
                t.m[ref::strOf(k)] = e;
            }
            return (int)t.m.size() == n;
        }
        if (at >= libube::TYPE_CFLOAT && at != libube::TYPE_VAR) return false;
        t.kind = Tree::ARR;
        for (int i=0; i<n; i++)
        {
            Tree e;
            if (!tree(v.at(i), e)) return false;
            t.a.push_back(e);
        }
        return true;
    }

    // Reader.  GOOD: exactly JSON.  LAX: JSON but for separators, number
    // format, or unescaped characters in strings.  BAD: anything else.
    enum Verdict { GOOD, LAX, BAD };
    struct Reader
    {
        const std::string& s;
        size_t p = 0;
        Verdict v = GOOD;
        bool slack = false;         // whether the value is also in doubt
        explicit Reader(const std::string& i) : s(i) {}
        struct Bad {};
        int peek() { while (p < s.size() && strchr(" \t\n\r\v\f", s[p]) && s[p]) { if (s[p] == '\v' || s[p] == '\f') lax(); p++; } return p < s.size() ? (unsigned char)s[p] : -1; }
        void lax() { if (v == GOOD) v = LAX; }

        Tree value()
        {
            switch (peek())
            {
            case '{': return object();
            case '[': return array();
            case '"': return str(string());
            }
            return raw();
        }
        Tree object()
        {
            Tree t;
            t.kind = Tree::MAP;
            p++;
            bool comma = true, any = false;
            for (;;)
            {
                int c = peek();
                if (c == '}') { if (comma && any) lax(); p++; return t; }
                if (c == ',') { if (comma) lax(); comma = true; any = true; p++; continue; }
                if (c != '"') throw Bad();
                if (!comma) lax();
                std::string k = string();
                if (peek() != ':') throw Bad();
                p++;
                // A second value for a key is not the grammar's concern
                Tree e = value();
                t.m[k] = e;
                comma = false;
                any = true;
            }
        }
        Tree array()
        {
            Tree t;
            t.kind = Tree::ARR;
            p++;
            bool comma = true, any = false;
            for (;;)
            {
                int c = peek();
                if (c == ']') { if (comma && any) lax(); p++; return t; }
                if (c == ',') { if (comma) lax(); comma = true; any = true; p++; continue; }
                if (c < 0) throw Bad();
                if (!comma) lax();
                t.a.push_back(value());
                comma = false;
                any = true;
            }
        }
        int hex()
        {
            int r = 0;
            for (int i=0; i<4; i++, p++)
            {
                if (p >= s.size() || !isxdigit((unsigned char)s[p])) throw Bad();
                r = r * 16 + std::stoi(s.substr(p, 1), 0, 16);
            }
            return r;
        }
        std::string string()
        {
            std::string r;
            p++;
            while (p < s.size())
            {
                unsigned char c = s[p++];
                if (c == '"') return r;
                if (c != '\\') { if (c < 0x20) lax(); r += (char)c; continue; }
                if (p >= s.size()) throw Bad();
                switch (s[p++])
                {
                case '"': r += '"'; break;
                case '\\': r += '\\'; break;
                case '/': r += '/'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u':
                {
                    long u = hex();
                    if (u >= 0xdc00 && u < 0xe000) { lax(); slack = true; }
                    else if (u >= 0xd800 && u < 0xdc00)
                    {
                        size_t q = p;
                        long w = 0;
                        bool pair = s.compare(p, 2, "\\u") == 0;
                        if (pair)
                        {
                            p += 2;
                            try { w = hex(); } catch (Bad&) { throw; }
                            pair = w >= 0xdc00 && w < 0xe000;
                        }
                        if (pair) u = 0x10000 + (u - 0xd800) * 0x400 + (w - 0xdc00);
                        else { p = q; lax(); slack = true; }
                    }
                    if (u < 0x80) r += (char)u;
                    else if (u < 0x800) { r += (char)(0xc0 + u / 64); r += (char)(0x80 + u % 64); }
                    else if (u < 0x10000) { r += (char)(0xe0 + u / 4096); r += (char)(0x80 + u / 64 % 64); r += (char)(0x80 + u % 64); }
                    else { r += (char)(0xf0 + u / 262144); r += (char)(0x80 + u / 4096 % 64); r += (char)(0x80 + u / 64 % 64); r += (char)(0x80 + u % 64); }
                    break;
                }
                default: throw Bad();
                }
            }
            throw Bad();
        }
        Tree raw()
        {
            std::string t;
            while (p < s.size() && s[p] && !strchr(" \t\n\r\v\f,[]{}", s[p])) t += s[p++];
            if (t == "null") return nul();
            if (t == "true") return num(1L);
            if (t == "false") return num(0L);
            if (t.empty()) throw Bad();
            // -? (0 | [1-9][0-9]*) (. [0-9]+)? ([eE] [+-]? [0-9]+)?
            size_t i = 0;
            auto digits = [&] { size_t b = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; return i - b; };
            bool strict = true, isInt = true;
            if (t[0] == '-') i++;
            else if (t[0] == '+') { i++; strict = false; }
            size_t b = i, n = digits();
            if (!n) strict = false;
            if (n > 1 && t[b] == '0') strict = false;
            size_t m = 0;
            if (i < t.size() && t[i] == '.') { i++; isInt = false; m = digits(); if (!m) strict = false; }
            if (n + m == 0) throw Bad();
            if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
            {
                i++;
                isInt = false;
                if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++;
                if (!digits()) throw Bad();
            }
            if (i < t.size()) throw Bad();
            if (!strict) lax();
            double d = strtod(t.c_str(), 0);
            if (std::isinf(d)) { lax(); slack = true; }
            errno = 0;
            long l = strtol(t.c_str(), 0, 10);
            if (isInt && !errno) return num(l);
            return num(d);
        }
    };

    // Read one value; the rest of the text is at rest
    inline Verdict read(const std::string& s, Tree& t, size_t& rest, bool& slack)
    {
        Reader r(s);
        slack = false;
        try { t = r.value(); }
        catch (Reader::Bad&) { return BAD; }
        rest = r.p;
        slack = r.slack;
        return r.v;
    }
}
