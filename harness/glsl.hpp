// A small interpreter of the shaders a 2D renderer uses: declarations of attributes, uniforms and varyings, and a main
// made of assignments of expressions over float, vectors and matrices. What it does not know makes the shader "unknown".
#pragma once
#include <array>
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace glsl
{
struct Value
{
    int                   rows = 1, cols = 1; // column major, as in GLSL
    std::array<double, 16> v{};
    int                   size() const { return rows * cols; }
};
struct Unknown
{
    std::string what;
};
struct Variable
{
    std::string type, storage;
    int         location = -1;
};
struct Node
{
    enum Kind { number, name, call, member, index, unary, binary } kind;
    std::string                        text;
    double                             value = 0;
    std::vector<std::unique_ptr<Node>> args{};
};
struct Statement
{
    std::string           target, swizzle, op;
    std::unique_ptr<Node> value;
};
inline int sizeOf(const std::string& t) { return t == "float" ? 1 : t == "vec2" ? 2 : t == "vec3" ? 3 : t == "vec4" ? 4 : 0; }
inline int orderOf(const std::string& t) { return t == "mat2" ? 2 : t == "mat3" ? 3 : t == "mat4" ? 4 : 0; }
inline int component(char c)
{
    for (const char* s : {"xyzw", "rgba", "stpq"})
        for (int i = 0; i < 4; ++i)
            if (s[i] == c)
                return i;
    throw Unknown{"component"};
}

class Shader
{
public:
    bool                            known = false;
    std::string                     why;
    std::map<std::string, Variable> variables;
    std::vector<Statement>          body;

    void compile(const std::string& source)
    {
        known = false;
        variables.clear();
        body.clear();
        tokens.clear();
        at = 0;
        try
        {
            scan(source);
            while (at < tokens.size())
                declaration();
            known = true;
        }
        catch (Unknown& u)
        {
            why = u.what;
        }
    }
    typedef std::map<std::string, Value> Memory;
    void run(Memory& m) const
    {
        for (auto& s : body)
        {
            Value  x = eval(*s.value, m);
            Value& y = m[s.target];
            if (s.swizzle.empty())
            {
                if (s.op == "=")
                    y = x;
                else
                    y = arithmetic(s.op[0], y, x);
            }
            else
                for (size_t i = 0; i < s.swizzle.size(); ++i)
                {
                    double& d = y.v[component(s.swizzle[i])];
                    double  n = x.size() == 1 ? x.v[0] : x.v[i];
                    y.rows    = std::max(y.rows, component(s.swizzle[i]) + 1);
                    d         = s.op == "=" ? n : s.op == "+=" ? d + n : s.op == "-=" ? d - n : s.op == "*=" ? d * n : d / n;
                }
        }
    }

private:
    std::vector<std::string> tokens;
    size_t                   at = 0;

    void scan(const std::string& s)
    {
        for (size_t i = 0; i < s.size();)
        {
            if (std::isspace((unsigned char)s[i]))
                ++i;
            else if (s[i] == '#' || s.compare(i, 2, "//") == 0)
                while (i < s.size() && s[i] != '\n')
                    ++i;
            else if (s.compare(i, 2, "/*") == 0)
                i = std::min(s.find("*/", i), s.size() - 2) + 2;
            else if (std::isalpha((unsigned char)s[i]) || s[i] == '_')
            {
                size_t j = i;
                while (j < s.size() && (std::isalnum((unsigned char)s[j]) || s[j] == '_'))
                    ++j;
                tokens.push_back(s.substr(i, j - i));
                i = j;
            }
            else if (std::isdigit((unsigned char)s[i]) || (s[i] == '.' && i + 1 < s.size() && std::isdigit((unsigned char)s[i + 1])))
            {
                size_t j = i;
                while (j < s.size() && (std::isalnum((unsigned char)s[j]) || s[j] == '.' || ((s[j] == '-' || s[j] == '+') && (s[j - 1] == 'e'))))
                    ++j;
                tokens.push_back(s.substr(i, j - i));
                i = j;
            }
            else if (i + 1 < s.size() && s[i + 1] == '=' && std::string("+-*/").find(s[i]) != std::string::npos)
                tokens.push_back(s.substr(i, 2)), i += 2;
            else
                tokens.push_back(s.substr(i++, 1));
        }
    }
    const std::string& peek() const
    {
        static const std::string none;
        return at < tokens.size() ? tokens[at] : none;
    }
    std::string next()
    {
        if (at >= tokens.size())
            throw Unknown{"end"};
        return tokens[at++];
    }
    void expect(const char* t)
    {
        if (next() != t)
            throw Unknown{std::string("not ") + t};
    }
    void declaration()
    {
        Variable v;
        if (peek() == ";")
        {
            ++at;
            return;
        }
        if (peek() == "precision")
        {
            while (next() != ";")
                ;
            return;
        }
        if (peek() == "void")
        {
            ++at;
            if (next() != "main")
                throw Unknown{"functions"};
            expect("(");
            if (peek() == "void")
                ++at;
            expect(")");
            expect("{");
            while (peek() != "}")
                statement();
            ++at;
            return;
        }
        if (peek() == "layout")
        {
            ++at;
            expect("(");
            expect("location");
            expect("=");
            v.location = atoi(next().c_str());
            expect(")");
        }
        while (peek() == "flat" || peek() == "smooth" || peek() == "noperspective" || peek() == "const" || peek() == "highp")
            ++at;
        v.storage = next();
        if (v.storage != "in" && v.storage != "out" && v.storage != "uniform")
            throw Unknown{v.storage};
        v.type = next();
        if (!sizeOf(v.type) && !orderOf(v.type))
            throw Unknown{v.type};
        do
            variables[next()] = v;
        while (peek() == "," && next() == ",");
        expect(";");
    }
    void statement()
    {
        if (peek() == ";")
        {
            ++at;
            return;
        }
        Statement s;
        if (peek() == "const" || peek() == "highp")
            ++at;
        if (sizeOf(peek()) || orderOf(peek()))
            ++at;
        s.target = next();
        if (peek() == ".")
            ++at, s.swizzle = next();
        s.op = next();
        if (s.op != "=" && s.op != "+=" && s.op != "-=" && s.op != "*=" && s.op != "/=")
            throw Unknown{s.op};
        s.value = sum();
        expect(";");
        body.push_back(std::move(s));
    }
    typedef std::unique_ptr<Node> Ptr;
    static Ptr make(Node::Kind k, std::string t)
    {
        auto n  = std::make_unique<Node>();
        n->kind = k;
        n->text = std::move(t);
        return n;
    }
    Ptr sum()
    {
        Ptr l = product();
        while (peek() == "+" || peek() == "-")
        {
            Ptr b = make(Node::binary, next());
            b->args.push_back(std::move(l));
            b->args.push_back(product());
            l = std::move(b);
        }
        return l;
    }
    Ptr product()
    {
        Ptr l = factor();
        while (peek() == "*" || peek() == "/")
        {
            Ptr b = make(Node::binary, next());
            b->args.push_back(std::move(l));
            b->args.push_back(factor());
            l = std::move(b);
        }
        return l;
    }
    Ptr factor()
    {
        if (peek() == "-" || peek() == "+")
        {
            Ptr u = make(Node::unary, next());
            u->args.push_back(factor());
            return u;
        }
        Ptr n;
        if (peek() == "(")
        {
            ++at;
            n = sum();
            expect(")");
        }
        else if (std::isdigit((unsigned char)peek()[0]) || peek()[0] == '.')
        {
            n        = make(Node::number, next());
            n->value = atof(n->text.c_str());
        }
        else if (std::isalpha((unsigned char)peek()[0]) || peek()[0] == '_')
        {
            n = make(Node::name, next());
            if (peek() == "(")
            {
                ++at;
                n->kind = Node::call;
                static const std::vector<std::string> functions{"transpose", "clamp", "min", "max", "mix", "dot", "normalize", "length", "abs"};
                bool ok = sizeOf(n->text) || orderOf(n->text);
                for (auto& f : functions)
                    ok |= f == n->text;
                if (!ok)
                    throw Unknown{n->text};
                while (peek() != ")")
                {
                    n->args.push_back(sum());
                    if (peek() == ",")
                        ++at;
                }
                ++at;
            }
        }
        else
            throw Unknown{peek()};
        while (peek() == "." || peek() == "[")
            if (next() == ".")
            {
                Ptr m = make(Node::member, next());
                m->args.push_back(std::move(n));
                n = std::move(m);
            }
            else
            {
                Ptr m = make(Node::index, "");
                m->args.push_back(std::move(n));
                m->args.push_back(sum());
                expect("]");
                n = std::move(m);
            }
        return n;
    }

    static Value arithmetic(char op, const Value& a, const Value& b)
    {
        Value r;
        if (op == '*' && a.size() > 1 && b.size() > 1 && (a.cols > 1 || b.cols > 1))
        {
            // matrix products, a vector on the left is a row
            Value l = a;
            if (a.cols == 1)
                l.rows = 1, l.cols = a.rows;
            if (l.cols != b.rows)
                throw Unknown{"sizes"};
            r.rows = l.rows, r.cols = b.cols;
            for (int i = 0; i < r.rows; ++i)
                for (int j = 0; j < r.cols; ++j)
                    for (int k = 0; k < l.cols; ++k)
                        r.v[j * r.rows + i] += l.v[k * l.rows + i] * b.v[j * b.rows + k];
            if (r.rows == 1)
                r.rows = r.cols, r.cols = 1;
            return r;
        }
        r.rows = a.size() > 1 ? a.rows : b.rows, r.cols = a.size() > 1 ? a.cols : b.cols;
        if (a.size() > 1 && b.size() > 1 && a.size() != b.size())
            throw Unknown{"sizes"};
        for (int i = 0; i < r.size(); ++i)
        {
            double x = a.v[a.size() > 1 ? i : 0], y = b.v[b.size() > 1 ? i : 0];
            r.v[i]   = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y;
        }
        return r;
    }
    static Value eval(const Node& n, const Memory& m)
    {
        Value r;
        switch (n.kind)
        {
            case Node::number: r.v[0] = n.value; return r;
            case Node::name:
            {
                auto it = m.find(n.text);
                if (it == m.end())
                    throw Unknown{n.text};
                return it->second;
            }
            case Node::unary:
                r = eval(*n.args[0], m);
                if (n.text == "-")
                    for (auto& d : r.v)
                        d = -d;
                return r;
            case Node::binary: return arithmetic(n.text[0], eval(*n.args[0], m), eval(*n.args[1], m));
            case Node::member:
            {
                Value a = eval(*n.args[0], m);
                r.rows  = (int)n.text.size();
                for (int i = 0; i < r.rows; ++i)
                    r.v[i] = a.v[component(n.text[i])];
                return r;
            }
            case Node::index:
            {
                Value a = eval(*n.args[0], m);
                int   i = (int)eval(*n.args[1], m).v[0];
                if (a.cols == 1)
                    r.v[0] = a.v[i];
                else
                {
                    r.rows = a.rows;
                    for (int k = 0; k < a.rows; ++k)
                        r.v[k] = a.v[i * a.rows + k];
                }
                return r;
            }
            case Node::call: break;
        }
        std::vector<Value> a;
        for (auto& x : n.args)
            a.push_back(eval(*x, m));
        if (int size = sizeOf(n.text))
        {
            r.rows = size;
            int k  = 0;
            if (a.size() == 1 && a[0].size() == 1)
                for (; k < size; ++k)
                    r.v[k] = a[0].v[0];
            for (auto& x : a)
                for (int i = 0; i < x.size() && k < size; ++i)
                    r.v[k++] = x.v[i];
            if (k < size)
                throw Unknown{"arguments"};
            return r;
        }
        if (int order = orderOf(n.text))
        {
            r.rows = r.cols = order;
            int k           = 0;
            if (a.size() == 1 && a[0].cols > 1)
            {
                for (int c = 0; c < order; ++c)
                    for (int i = 0; i < order; ++i)
                        r.v[c * order + i] = c < a[0].cols && i < a[0].rows ? a[0].v[c * a[0].rows + i] : c == i;
                return r;
            }
            if (a.size() == 1)
            {
                for (int i = 0; i < order; ++i)
                    r.v[i * order + i] = a[0].v[0];
                return r;
            }
            for (auto& x : a)
                for (int i = 0; i < x.size() && k < order * order; ++i)
                    r.v[k++] = x.v[i];
            return r;
        }
        auto each = [&](auto f) {
            r.rows = a[0].rows, r.cols = a[0].cols;
            for (int i = 0; i < r.size(); ++i)
                r.v[i] = f(i);
            return r;
        };
        auto get = [&](int k, int i) { return a.at(k).v[a.at(k).size() > 1 ? i : 0]; };
        if (n.text == "transpose")
        {
            r.rows = a[0].cols, r.cols = a[0].rows;
            for (int i = 0; i < r.rows; ++i)
                for (int j = 0; j < r.cols; ++j)
                    r.v[j * r.rows + i] = a[0].v[i * a[0].rows + j];
            return r;
        }
        if (n.text == "abs")
            return each([&](int i) { return std::abs(get(0, i)); });
        if (n.text == "min")
            return each([&](int i) { return std::min(get(0, i), get(1, i)); });
        if (n.text == "max")
            return each([&](int i) { return std::max(get(0, i), get(1, i)); });
        if (n.text == "clamp")
            return each([&](int i) { return std::min(std::max(get(0, i), get(1, i)), get(2, i)); });
        if (n.text == "mix")
            return each([&](int i) { return get(0, i) * (1 - get(2, i)) + get(1, i) * get(2, i); });
        double sq = 0;
        for (int i = 0; i < a[0].size(); ++i)
            sq += get(0, i) * (n.text == "dot" ? get(1, i) : get(0, i));
        if (n.text == "normalize")
            return each([&](int i) { return get(0, i) / std::sqrt(sq); });
        r.v[0] = n.text == "dot" ? sq : std::sqrt(sq);
        return r;
    }
};
} // namespace glsl
