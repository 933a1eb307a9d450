// Reads a search tree through the library's public pretty printer.
#pragma once
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace toy {
    struct PNode {
        bool decision = true;
        std::vector<double> val;           // leading value, then the bracketed ones in order of appearance
        std::map<std::string,double> named;
        long visits = -1;
        bool elided = false;
        std::map<int, std::unique_ptr<PNode>> kids;   // action id or outcome state
    };
    struct PParser {
        const char* p;
        PParser(const char* s) : p(s) {}
        [[noreturn]] void bad(const char* w) { throw std::runtime_error(std::string("pretty print: expected ") + w + " at: " + std::string(p).substr(0, 40)); }
        bool eat(const char* s) { size_t n = strlen(s); if (strncmp(p, s, n) == 0) { p += n; return true; } return false; }
        void need(const char* s) { if (!eat(s)) bad(s); }
        double num() {
            char* e; double v = strtod(p, &e);
            if (e == p) bad("number");
            p = e; return v;
        }
        void ws() { while (*p == '\n' || *p == '\t' || *p == '|' || *p == ' ') p++; }
        std::unique_ptr<PNode> node() {
            auto n = std::make_unique<PNode>();
            if (eat("D(vl=")) n->decision = true; else if (eat("C(vl=")) n->decision = false; else bad("node");
            n->val.push_back(num());
            n->named["vl"] = n->val[0];
            if (eat("(")) {
                while (true) {
                    std::string key;
                    while (*p && *p != ':') key += *p++;
                    need(":");
                    double v = num();
                    n->val.push_back(v); n->named[key] = v;
                    if (eat(")")) break;
                    need(",");
                }
            }
            need(",#v="); n->visits = (long) num(); need(")[");
            if (eat("...")) n->elided = true;
            ws();
            while (!eat("]")) {
                int key;
                if (n->decision) { need("\""); key = (int) num(); need("\"->"); }
                else { need("{("); key = (int) num(); need(")}->"); }
                if (n->kids.count(key)) throw std::runtime_error("pretty print: duplicate child key");
                n->kids[key] = node();
                ws();
            }
            need(",");
            return n;
        }
    };
    inline std::unique_ptr<PNode> parse_tree(const std::string& s) { PParser p(s.c_str()); return p.node(); }
}
