// C25: comparing and printing serialised states.
#include "models.hpp"
#include <distributions/io/protobuf.hpp>
#include <google/protobuf/descriptor.h>

typedef google::protobuf::Message Msg;
typedef google::protobuf::FieldDescriptor Fd;

static float real(Src & src) { float x = src.boolean(1, 4) ? 0 : src.f(1e-6, 1e6); return src.boolean(1, 4) ? -x : x; }
static uint64_t whole(Src & src) { return src.boolean(1, 6) ? 4294967295U - src.small(0, 9) : src.small(0, 1000); }
static bool parallel(const Msg & m) { return m.GetDescriptor()->containing_type() && m.GetDescriptor()->containing_type()->name() == "DirichletProcessDiscrete"; }

// any message of the type; the repeated fields of the Dirichlet process run in parallel and are keyed by distinct values
static void fill(Msg & m, Src & src) {
    auto r = m.GetReflection(); auto d = m.GetDescriptor();
    int n = src.length(0, 6);
    bool par = parallel(m), first = true;
    for (int i = 0; i < d->field_count(); ++i) {
        auto f = d->field(i);
        int len = f->is_repeated() ? (par ? n : src.length(0, 6)) : 1;
        std::set<uint64_t> used;
        for (int j = 0; j < len; ++j) switch (f->cpp_type()) {
            case Fd::CPPTYPE_FLOAT: if (f->is_repeated()) r->AddFloat(&m, f, real(src)); else r->SetFloat(&m, f, real(src)); break;
            case Fd::CPPTYPE_UINT32: { uint64_t v = whole(src); while (par && first && used.count(v)) v = (v + 1) & 0xFFFFFFFFU; used.insert(v);
                if (f->is_repeated()) r->AddUInt32(&m, f, v); else r->SetUInt32(&m, f, v); break; }
            case Fd::CPPTYPE_UINT64: if (f->is_repeated()) r->AddUInt64(&m, f, whole(src)); else r->SetUInt64(&m, f, whole(src)); break;
            case Fd::CPPTYPE_INT32: REQ(!f->is_repeated(), "repeated int32"); r->SetInt32(&m, f, src.small(0, 1000)); break;
            default: REQ(false, "unexpected field type in " << d->full_name());
        }
        if (f->is_repeated()) first = false;
    }
}
static float nudge(float x, Src & src) { return x + (1 + std::fabs(x)) * static_cast<float>(src.real(-1e-2, 1e-2)); }
static float shove(float x, Src & src) { float by = (1 + 2 * std::fabs(x)) * static_cast<float>(src.real(0.15, 0.2)) * 1.25f; return src.boolean() ? x + by : x - by; }
template<class F> static void reals(Msg & m, F change) {
    auto r = m.GetReflection(); auto d = m.GetDescriptor();
    for (int i = 0; i < d->field_count(); ++i) { auto f = d->field(i);
        if (f->cpp_type() != Fd::CPPTYPE_FLOAT) continue;
        if (f->is_repeated()) for (int j = 0; j < r->FieldSize(m, f); ++j) r->SetRepeatedFloat(&m, f, j, change(r->GetRepeatedFloat(m, f, j)));
        else r->SetFloat(&m, f, change(r->GetFloat(m, f))); }
}
static void shuffle(Msg & m, Src & src) {
    auto r = m.GetReflection(); auto d = m.GetDescriptor();
    int n = 0;
    for (int i = 0; i < d->field_count(); ++i) if (d->field(i)->is_repeated()) n = r->FieldSize(m, d->field(i));
    for (int k = n - 1; k > 0; --k) { int j = src.integer(0, k);
        for (int i = 0; i < d->field_count(); ++i) if (d->field(i)->is_repeated()) r->SwapElements(&m, d->field(i), j, k); }
}
// changes one thing that matters; returns what
static std::string spoil(Msg & m, Src & src) {
    auto r = m.GetReflection(); auto d = m.GetDescriptor();
    struct Place { const Fd * f; int j; };
    std::vector<Place> places;
    std::vector<const Fd *> lists;
    for (int i = 0; i < d->field_count(); ++i) { auto f = d->field(i);
        if (f->is_repeated()) { for (int j = 0; j < r->FieldSize(m, f); ++j) places.push_back({f, j}); lists.push_back(f); }
        else if (f->name() != "log_prod") places.push_back({f, -1}); }  // log_prod is documented as too noisy to compare
    if (!lists.empty() && (places.empty() || src.boolean(1, 3))) {  // one element more or fewer
        bool par = parallel(m), grow = r->FieldSize(m, lists[0]) == 0 || src.boolean();
        if (!par) { auto l = src.pick(lists); lists = {l}; grow = r->FieldSize(m, l) == 0 || src.boolean(); }
        for (auto f : lists) {
            if (!grow) { r->RemoveLast(&m, f); continue; }
            switch (f->cpp_type()) {
                case Fd::CPPTYPE_FLOAT: r->AddFloat(&m, f, src.boolean() ? 0 : real(src)); break;
                case Fd::CPPTYPE_UINT32: r->AddUInt32(&m, f, src.boolean() ? 0 : whole(src)); break;
                default: r->AddUInt64(&m, f, src.boolean() ? 0 : whole(src)); }
        }
        return (grow ? "one more " : "one fewer ") + lists[0]->name();
    }
    Place p = src.pick(places);
    auto other = [&](uint64_t x) { uint64_t y = src.boolean() ? x + 1 : src.boolean() && x ? x - 1 : whole(src); if (y > 0xFFFFFFFFU) y = 7; return y == x ? x ^ 1 : y; };
    switch (p.f->cpp_type()) {
        case Fd::CPPTYPE_FLOAT: if (p.j < 0) r->SetFloat(&m, p.f, shove(r->GetFloat(m, p.f), src)); else r->SetRepeatedFloat(&m, p.f, p.j, shove(r->GetRepeatedFloat(m, p.f, p.j), src)); break;
        case Fd::CPPTYPE_UINT32: if (p.j < 0) r->SetUInt32(&m, p.f, other(r->GetUInt32(m, p.f))); else r->SetRepeatedUInt32(&m, p.f, p.j, other(r->GetRepeatedUInt32(m, p.f, p.j))); break;
        case Fd::CPPTYPE_INT32: r->SetInt32(&m, p.f, r->GetInt32(m, p.f) + src.integer(1, 9)); break;
        default: if (p.j < 0) r->SetUInt64(&m, p.f, other(r->GetUInt64(m, p.f))); else r->SetRepeatedUInt64(&m, p.f, p.j, other(r->GetRepeatedUInt64(m, p.f, p.j))); }
    return p.f->name() + (p.j < 0 ? "" : "[" + std::to_string(p.j) + "]");
}
template<class T> static bool close(const T & x, const T & y) {
    bool a = distributions::are_close(x, y), b = distributions::are_close(y, x);
    REQ(a == b, "are_close is not symmetric on " << x.ShortDebugString() << " and " << y.ShortDebugString());
    return a;
}
template<class T> static void compare(Src & src, bool tolerant) {
    T x; fill(x, src);
    T y = x;
    NOTE(src, T::descriptor()->full_name() << " " << x.ShortDebugString() << "; ");
    REQ(close(x, y), "a message is not close to its copy: " << x.ShortDebugString());
    REQ(x == y, "a message does not equal its copy: " << x.ShortDebugString());
    std::ostringstream o; o << x;
    REQ_EQ(o.str(), "{" + x.ShortDebugString() + "}", "printed message");
    if (parallel(x) && src.boolean()) { shuffle(y, src); NOTE(src, "shuffled; "); REQ(close(x, y), "the same entries in another order are not close: " << x.ShortDebugString() << " and " << y.ShortDebugString()); }
    if (tolerant && src.boolean()) { reals(y, [&](float v) { return nudge(v, src); }); NOTE(src, "nudged; ");
        REQ(close(x, y), "messages that differ by rounding are not close: " << x.ShortDebugString() << " and " << y.ShortDebugString()); }
    std::string exact = y.SerializeAsString();
    std::string what = spoil(y, src);
    NOTE(src, "changed " << what << "; ");
    T z; REQ(z.ParseFromString(exact), "parse");
    REQ(!(y == z), "messages that differ in " << what << " are equal: " << y.ShortDebugString() << " and " << z.ShortDebugString());
    REQ(!close(x, y), "messages that differ in " << what << " are close: " << x.ShortDebugString() << " and " << y.ShortDebugString());
    src.nontrivial();
}
TARGET(C25_bb, 1, "a message with one thing changed") { if (src.boolean()) compare<pb::BetaBernoulli_Shared>(src, true); else compare<pb::BetaBernoulli_Group>(src, false); }
TARGET(C25_bnb, 1, "a message with one thing changed") { if (src.boolean()) compare<pb::BetaNegativeBinomial_Shared>(src, true); else compare<pb::BetaNegativeBinomial_Group>(src, false); }
TARGET(C25_dd, 1, "a message with one thing changed") { if (src.boolean()) compare<pb::DirichletDiscrete_Shared>(src, true); else compare<pb::DirichletDiscrete_Group>(src, false); }
TARGET(C25_dpd, 2, "a message with one thing changed") { if (src.boolean()) compare<pb::DirichletProcessDiscrete_Shared>(src, true); else compare<pb::DirichletProcessDiscrete_Group>(src, false); }
TARGET(C25_gp, 1, "a message with one thing changed") { if (src.boolean()) compare<pb::GammaPoisson_Shared>(src, true); else compare<pb::GammaPoisson_Group>(src, true); }
TARGET(C25_nich, 1, "a message with one thing changed") { if (src.boolean()) compare<pb::NormalInverseChiSq_Shared>(src, true); else compare<pb::NormalInverseChiSq_Group>(src, true); }
TARGET(C25_niw, 1, "a message with one thing changed") { if (src.boolean()) compare<pb::NormalInverseWishart_Shared>(src, true); else compare<pb::NormalInverseWishart_Group>(src, true); }

// plain values, vectors and pairs of them, and repeated fields
TARGET(C25_plain, 1, "values that differ") {
    float x = real(src), y = nudge(x, src), z = shove(x, src);
    double dx = real(src), dy = dx + (1 + std::fabs(dx)) * src.real(-1e-2, 1e-2), dz = dx + (1 + 2 * std::fabs(dx)) * (src.boolean() ? 0.25 : -0.25);
    using distributions::are_close;
    REQ(are_close(x, y) && are_close(y, x), eng::fmt(x) << " is not close to " << eng::fmt(y));
    REQ(!are_close(x, z) && !are_close(z, x), eng::fmt(x) << " is close to " << eng::fmt(z));
    REQ(are_close(dx, dy) && !are_close(dx, dz), "doubles " << eng::fmt(dx) << ", " << eng::fmt(dy) << ", " << eng::fmt(dz));
    std::vector<float> u, v, w;
    google::protobuf::RepeatedField<float> p, q;
    google::protobuf::RepeatedPtrField<std::string> s, t;
    std::string printed, strings;
    int n = src.length(0, 6);
    for (int i = 0; i < n; ++i) {
        u.push_back(real(src)); v.push_back(nudge(u.back(), src)); p.Add(i); q.Add(i); s.Add()->assign(std::to_string(i)); t.Add()->assign(std::to_string(i));
        printed += (i ? "," : "") + std::to_string(i); }
    w = v;
    REQ(are_close(u, v) && are_close(v, u), "vectors that differ by rounding");
    REQ(are_close(p, q) && p == q && s == t, "repeated fields that are equal");
    std::ostringstream o, o2; o << p; o2 << s;
    REQ_EQ(o.str(), "[" + printed + "]", "printed repeated field");
    REQ_EQ(o2.str(), "[" + printed + "]", "printed repeated pointer field");
    if (n && src.boolean()) { size_t i = src.index(n); w[i] = shove(u[i], src); q.Set(i, i + 1.5f); t.Mutable(i)->append("x"); }
    else if (n && src.boolean()) { w.pop_back(); q.RemoveLast(); t.RemoveLast(); }
    else { w.push_back(src.boolean() ? 0 : real(src)); q.Add(src.boolean() ? 0 : 5); t.Add(); }
    REQ(!are_close(u, w) && !are_close(w, u), "vectors that differ are close");
    REQ(!are_close(p, q) && !are_close(q, p) && !(p == q) && !(q == p), "repeated fields that differ are close or equal");
    REQ(!(s == t) && !(t == s), "repeated strings that differ are equal");
    REQ(are_close(std::make_pair(7, x), std::make_pair(7, y)) && !are_close(std::make_pair(7, x), std::make_pair(7, z)) && !are_close(std::make_pair(7, x), std::make_pair(8, x)), "pairs");
    src.nontrivial();
}
