// Runs the tokenizer on each input line (hex bytes) and writes one JSON record per line.
#include "simfil/token.h"
#include "vt.h"
#include <cmath>

using simfil::Token;

static const char* typeName(Token::Type t)
{
    switch (t) {
#define T(x) case Token::x: return #x;
    T(NIL) T(LPAREN) T(RPAREN) T(LBRACK) T(RBRACK) T(LBRACE) T(RBRACE) T(COMMA) T(DOT) T(COLON)
    T(WILDCARD) T(INT) T(FLOAT) T(STRING) T(REGEXP) T(WORD) T(SELF) T(C_NULL) T(C_TRUE) T(C_FALSE)
    T(OP_ADD) T(OP_SUB) T(OP_TIMES) T(OP_DIV) T(OP_MOD) T(OP_LSHIFT) T(OP_RSHIFT) T(OP_BITAND)
    T(OP_BITOR) T(OP_BITXOR) T(OP_BITINV) T(OP_NOT) T(OP_AND) T(OP_OR) T(OP_EQ) T(OP_NOT_EQ) T(OP_LT)
    T(OP_LTEQ) T(OP_GT) T(OP_GTEQ) T(OP_BOOL) T(OP_LEN) T(OP_TYPEOF) T(OP_CAST) T(OP_UNPACK)
#undef T
    }
    return "?";
}

int main()
{
    return vt::eachLine([](const std::string& line, std::string& o) {
        auto in = vt::unhex(line);
        o += "{\"in\":"; vt::bytes(o, in);
        try {
            // The buffer has exactly the size of the input: reads behind it are found by ASan
            std::vector<char> buf(in.begin(), in.end());
            auto toks = simfil::tokenize(std::string_view(buf.data(), buf.size()));
            auto nil = !toks.empty() && toks.back().type == Token::NIL;
            auto n = toks.size() - (nil ? 1 : 0);
            o += ",\"r\":\"ok\",\"exc\":\"\",\"pos\":-1,\"toks\":[";
            for (size_t i = 0; i < n; ++i) {
                auto& t = toks[i];
                if (t.type == Token::NIL) nil = false;
                if (i) o += ',';
                o += "{\"t\":\""; o += typeName(t.type);
                o += "\",\"b\":" + std::to_string(t.begin) + ",\"e\":" + std::to_string(t.end) + ",\"v\":";
                if (auto v = std::get_if<std::string>(&t.value)) { o += "{\"k\":\"str\",\"s\":"; vt::bytes(o, *v); o += '}'; }
                else if (auto v = std::get_if<int64_t>(&t.value)) { o += "{\"k\":\"int\",\"w\":"; vt::wide(o, *v); o += '}'; }
                else if (auto v = std::get_if<double>(&t.value)) { vt::interval(o, *v); }
                else o += "{\"k\":\"none\"}";
                o += '}';
            }
            o += std::string("],\"nil\":") + (nil ? "true" : "false") + "}";
        } catch (const std::exception& e) {
            std::string w = e.what();
            long pos = -1;
            bool rest = true;   // the message ends with the rest of the input
            // "<message> at <position> (<rest>)"
            for (size_t p = w.find(" at "); p != std::string::npos; p = w.find(" at ", p + 1))
                if (isdigit((unsigned char)w[p + 4])) {
                    char* end = nullptr;
                    pos = strtol(w.c_str() + p + 4, &end, 10);
                    rest = std::string(end) == std::string((size_t(pos) < in.size() ? " (" + in.substr(pos) + ")" : "").c_str());
                    break;
                }
            o += std::string(",\"r\":\"error\",\"exc\":\"") + (dynamic_cast<const std::runtime_error*>(&e) ? "runtime_error" : "other") +
                "\",\"pos\":" + std::to_string(pos) + ",\"toks\":[],\"nil\":false,\"rest\":" + (rest ? "true}" : "false}");
        }
    });
}
