// User-defined functions and types: functions are called as written, operators reach the type with their name and operands in order.
#include "q.h"
#include "simfil/typed-meta-type.h"
struct Pay { int64_t v = 0; int* live = nullptr; Pay() = default; Pay(const Pay& o) : v(o.v), live(o.live) { if (live) ++*live; } ~Pay() { if (live) --*live; } };
struct Call { std::string op; int side = 0; int64_t self = 0; VT other = VT::Undef; int64_t otherInt = 0; };
struct Log { std::vector<Call> c; int live = 0, calls = 0; int mode = 0; int64_t answer = 0; };
static Log* L;
struct Meta final : TypedMetaType<Pay> {
    Meta() : TypedMetaType("point") {}
    Value answer(std::string_view op, int side, const Pay& p, const Value* o) const {
        if (op == "typeof") return Value::make(ident);
        Call c; c.op = op; c.side = side; c.self = p.v; if (o) { c.other = o->type; if (o->isa(VT::Int)) c.otherInt = o->as<VT::Int>(); } L->c.push_back(c);
        if (L->mode == 1) throw InvalidOperandsError(op); if (L->mode == 2) return make(L->answer); return op == "?" ? Value::make(L->answer > 100000) : Value::make(L->answer);
    }
    Value make(int64_t v) const { TransientObject o(this); auto p = get(o); p->v = v; p->live = &L->live; ++L->live; return Value(VT::TransientObject, std::move(o)); }
    auto unaryOp(std::string_view op, const Pay& p) const -> Value override { return answer(op, 0, p, nullptr); }
    auto binaryOp(std::string_view op, const Pay& p, const Value& o) const -> Value override { return answer(op, 1, p, &o); }
    auto binaryOp(std::string_view op, const Value& o, const Pay& p) const -> Value override { return answer(op, 2, p, &o); }
    auto unpack(const Pay& p, std::function<bool(Value)> f) const -> void override { for (int i = 0; i < 3; i++) if (!f(i == 2 ? make(p.v) : Value::make(p.v + i))) return; }
};
static Meta* M;
static int64_t payload(const Value& v) { auto p = getObject<Pay>(v, M); sx_assert(p, "a value of the user-defined type"); return p->v; }
struct Mk : Function {      // mk(x...): a point for every value
    auto ident() const -> const FnInfo& override { static const FnInfo i{"mk", "", ""}; return i; }
    auto eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const -> Result override {
        if (ctx.phase == Context::Evaluation) L->calls++;
        for (auto& a : args) { auto r = a->eval(ctx, val, LambdaResultFn([&](Context c, Value v) { if (v.isa(VT::Undef)) return res(c, Value::undef()); return res(c, v.isa(VT::Int) ? M->make(v.as<VT::Int>()) : Value::null()); })); if (r == Result::Stop) return r; }
        return Result::Continue;
    }
};
struct OpT { const char* q; const char* name; int side; };   // side 0 unary, 1 the point is left, 2 the point is right
static const OpT ops[] = { {"-mk(a)", "-", 0}, {"~mk(a)", "~", 0}, {"#mk(a)", "#", 0}, {"mk(a)?", "?", 0}, {"mk(a) as int", "int", 0}, {"mk(a) as float", "float", 0}, {"mk(a) as string", "string", 0}, {"mk(a) area", "area", 0},
    {"mk(a) + b", "+", 1}, {"b + mk(a)", "+", 2}, {"mk(a) - b", "-", 1}, {"b - mk(a)", "-", 2}, {"mk(a) * b", "*", 1}, {"b * mk(a)", "*", 2}, {"mk(a) / b", "/", 1}, {"b / mk(a)", "/", 2}, {"mk(a) % b", "%", 1}, {"b % mk(a)", "%", 2},
    {"mk(a) == b", "==", 1}, {"b == mk(a)", "==", 2}, {"mk(a) != b", "!=", 1}, {"b != mk(a)", "!=", 2}, {"mk(a) < b", "<", 1}, {"b < mk(a)", "<", 2}, {"mk(a) <= b", "<=", 1}, {"b <= mk(a)", "<=", 2}, {"mk(a) > b", ">", 1}, {"b > mk(a)", ">", 2}, {"mk(a) >= b", ">=", 1}, {"b >= mk(a)", ">=", 2},
    {"mk(a) & b", "&", 1}, {"b & mk(a)", "&", 2}, {"mk(a) | b", "|", 1}, {"b | mk(a)", "|", 2}, {"mk(a) ^ b", "^", 1}, {"b ^ mk(a)", "^", 2}, {"mk(a) << b", "<<", 1}, {"b << mk(a)", "<<", 2}, {"mk(a) >> b", ">>", 1}, {"b >> mk(a)", ">>", 2},
    {"mk(a) near b", "near", 1}, {"b near mk(a)", "near", 2}, {"mk(b) within mk(a)", "within", 3}, {"mk(b) + mk(a)", "+", 3} };
static const int NOPS = sizeof ops / sizeof *ops;
void sx_main() {
    static Meta meta; static Mk mk; Log log; L = &log; M = &meta;
    {
        W w; w.env.functions["mk"] = &mk; int64_t a = sx_i64("a"), b = sx_i64("b"); sx_assume(a > 70000); sx_assume(b > 70000); sx_assume(a < (1ll << 60)); sx_assume(b < (1ll << 60)); log.answer = sx_i64("answer"); w.o->addField("a", a); w.o->addField("b", b);
        { auto r = w.m->newArray(2); r->append(a); r->append(b); w.o->addField("arr", r); }
        if (sx_param("PART", 0) == 0) {
            int q = (int)sx_choose(0, NOPS - 1, "operator"); log.mode = (int)sx_choose(0, 2, "mode"); auto& o = ops[q]; if (log.mode == 2 && std::string(o.name) == "?") return;
            R r = w.run(o.q); sx_reach(log.mode == 0 ? "scalar" : log.mode == 1 ? "invalid" : "object"); obs(R{r.err, "", {}});
            bool neqFallback = std::string(o.name) == "!=";
            if (log.c.size() == 1) {
                auto& c = log.c[0]; sx_assert(c.op == o.name, "the operator's name"); sx_assert(c.side == (o.side == 3 ? 1 : o.side), "the side of the operand"); sx_assert(c.self == (o.side == 3 ? b : a), "the operand of the type");
                if (o.side == 1 || o.side == 2) sx_assert(c.other == VT::Int && c.otherInt == b, "the other operand"); if (o.side == 3) sx_assert(c.other == VT::TransientObject, "the other operand");
            } else sx_assert(false, "the operator is called once");
            if (log.mode == 1) sx_assert(r.err == 1, "an operator a type does not have is an error");
            else if (log.mode == 2) { sx_assert(!r.err && r.v.size() == 1 && r.v[0].isa(VT::TransientObject) && payload(r.v[0]) == log.answer, "the result of the operator"); }
            else if (std::string(o.name) == "?") sx_assert(r.isBool(log.answer > 100000), "the result of the operator");
            else sx_assert(r.isInt(log.answer), "the result of the operator");
            (void)neqFallback; r.v.clear(); sx_assert(log.live == 0, "temporary objects are released");
        } else if (sx_param("PART", 0) == 2) {      // operands of every kind, on both sides
            static const char* bin[] = {"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", "<<", ">>", "near"};
            static const struct { const char* q; VT t; } opd[] = {{"null", VT::Null}, {"true", VT::Bool}, {"fl", VT::Bool}, {"'x'", VT::String}, {"st", VT::String}, {"1.5", VT::Float}, {"arr", VT::Array}, {"_", VT::Object}, {"mk(b)", VT::TransientObject}, {"missing", VT::Null}, {"range(1, 2)", VT::TransientObject}};
            w.o->addBool("fl", false); w.o->addField("st", std::string_view("y"));
            int i = (int)sx_choose(0, sizeof bin / sizeof *bin - 1, "operator"), k = (int)sx_choose(0, sizeof opd / sizeof *opd - 1, "operand"); bool right = sx_choose(0, 1, "side"); log.mode = 0;
            std::string q = right ? std::string(opd[k].q) + " " + bin[i] + " mk(a)" : std::string("mk(a) ") + bin[i] + " " + opd[k].q; R r = w.run(q); obs(R{r.err, "", {}}); sx_reach("kinds");
            sx_observe_str(q); for (auto& c : log.c) { sx_observe_str(c.op.c_str()); sx_observe(c.side); sx_observe((int)c.other); }
            bool obj = std::string(opd[k].q) == "mk(b)", range = opd[k].t == VT::TransientObject && !obj;
            if (range && right) sx_assert(log.c.empty(), "an operator of the type on the left");
            else {
                sx_assert(log.c.size() == 1, "the operator is called once, for operands of every kind"); auto& c = log.c[0]; sx_assert(c.op == bin[i], "the operator's name"); sx_assert(c.side == (right && !obj ? 2 : 1), "the side of the operand");
                sx_assert(c.self == (right && obj ? b : a), "the operand of the type"); sx_assert(c.other == opd[k].t, "the kind of the other operand"); sx_assert(r.isInt(log.answer), "the result of the operator");
            }
            r.v.clear(); sx_assert(log.live == 0, "temporary objects are released");
        } else {
            int q = (int)sx_choose(sx_param("FROM", 0), sx_param("FROM", 0) ? 11 : 10, "query"); R r; sx_reach("functions");
            auto pt = [&](size_t i, int64_t x) { sx_assert(!r.err && i < r.v.size() && r.v[i].isa(VT::TransientObject), "a point"); sx_assert(payload(r.v[i]) == x, "its payload"); };
            switch (q) {
            case 0: r = w.run("mk(a)"); sx_assert(r.v.size() == 1 && log.calls == 1, "one call"); pt(0, a); break;
            case 1: r = w.run("MK(a, b)"); sx_assert(r.v.size() == 2 && log.calls == 1, "a value per argument"); pt(0, a); pt(1, b); break;
            case 2: r = w.run("mk(arr.*)"); sx_assert(r.v.size() == 2, "a value per value"); pt(0, a); pt(1, b); break;
            case 3: r = w.run("mk()"); sx_assert(r.isNull(), "no value is null"); break;
            case 4: r = w.run("mk(a)..."); sx_assert(!r.err && r.v.size() == 3, "unpacking"); sx_assert(r.v[0].as<VT::Int>() == a && r.v[1].as<VT::Int>() == a + 1, "unpacked values"); pt(2, a); break;
            case 5: r = w.run("count(mk(a, b)...)"); sx_assert(r.isInt(log.answer > 100000 ? 6 : 4), "counting unpacked values"); break;
            case 6: r = w.run("arr(mk(a), mk(b), b)"); sx_assert(r.v.size() == 3, "a list"); pt(0, a); pt(1, b); break;
            case 7: r = w.run("select(arr(mk(a), mk(b)), 1)"); sx_assert(r.v.size() == 1, "one value"); pt(0, b); break;
            case 8: r = w.run("any(mk(a))"); sx_assert(r.isBool(log.answer > 100000), "truth of an object"); break;
            case 9: r = w.run("trace(mk(a), 1, \"t\")"); pt(0, a); w.env.traces.clear(); break;
            case 10: r = w.run("typeof mk(a)"); sx_assert(r.isStr("point"), "the type's name"); break;
            default: r = w.run("sum(mk(a), $val, 0)"); sx_assert(!r.err && r.v.size() == 1 && r.v[0].isa(VT::TransientObject), "$val in sum is a transient object"); pt(0, a); break;
            }
            sx_observe(r.err); sx_observe(r.v.size()); r.v.clear(); sx_assert(log.live == 0, "temporary objects are released");
        }
    }
    sx_assert(log.live == 0, "all objects are released");
}
