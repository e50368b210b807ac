// Contracts on schemas, their channels, and the assembly of ticks (streams/src/{schema,stream_construction_helper,parametrization}.cpp, streams/src/channels/*.cpp).
// PROPERTY: C20
// SOURCES: lal intervals platform generics devices device scalars algebra streams
#include "alg.h"
#include "hall.h"
#include <roughpy/streams/schema.h>
#include <roughpy/streams/stream_construction_helper.h>
#include <roughpy/streams/channels.h>
#include <stdexcept>
#include <string>
using namespace rpy::streams;
using std::string; using std::string_view;

template <class F> static bool refused(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static bool ask(const char* n) { return vc::choose(n, 2) == 1; }

VC_CONTRACT(label_matching, int, bounded, "a label belongs to a channel exactly when it is the channel's label, or that followed by a colon and more; nothing else is looked at")
{
    // the labels lie in a larger text, with nothing that ends them
    size_t n = vc::choose("length of the channel's label", 4), m = vc::choose("length of the label", 6);
    char item[4], label[6];
    for (size_t i = 0; i < 4; ++i) item[i] = vc::any<char>("channel");
    for (size_t i = 0; i < 6; ++i) label[i] = vc::any<char>("label");
    for (size_t i = 0; i < n; ++i) REQUIRES(item[i] != 0);
    for (size_t i = 0; i < m; ++i) REQUIRES(label[i] != 0);
    bool want = n > 0 && m >= n;
    for (size_t i = 0; want && i < n; ++i) want = item[i] == label[i];
    want = want && (m == n || label[n] == ':');
    ENSURES(StreamSchema::compare_labels(string_view(item, n), string_view(label, m)) == want, "matches");
    COVER("matched");
}

// the channels a schema is made of: their kinds, numbers of variants and labels
enum Kind { Inc, IncLL, Val, ValLL, Cat0, Cat1, Cat2, Cat3, LieCh };
static const char* kLabels[] = {"a", "ab", "b", "7", "a_longer_label_than_is_kept_in_place"};
static const char* kVariants[] = {"x", "xy", "y"};
struct Channels { std::vector<Kind> kind; std::vector<string> label; };
static size_t variants_of(Kind k) { switch (k) { case IncLL: case ValLL: case Cat2: return 2; case Cat0: return 0; case Cat3: return 3; default: return 1; } }
static string suffix_of(Kind k, size_t v) {
    switch (k) { case IncLL: case ValLL: return v == 0 ? ":lead" : ":lag"; case Cat1: case Cat2: case Cat3: return string(":") + kVariants[v]; default: return ""; }
}
static StreamChannel& add(StreamSchema& s, Kind k, string label) {
    switch (k) {
        case Inc: return s.insert_increment(std::move(label));
        case IncLL: { auto& c = s.insert_increment(std::move(label)); c.set_lead_lag(true); return c; }
        case Val: return s.insert_value(std::move(label));
        case ValLL: { auto& c = s.insert_value(std::move(label)); c.set_lead_lag(true); return c; }
        case LieCh: return s.insert_lie(std::move(label));
        default: {
            auto& c = s.insert_categorical(std::move(label));
            for (size_t i = 0; i < variants_of(k); ++i) c.add_variant(kVariants[i]);
            return c;
        }
    }
}
static Channels channels(unsigned most, std::initializer_list<Kind> kinds) {
    Channels c;
    unsigned n = vc::choose("channels", most + 1), first = vc::choose("first label", 5);
    for (unsigned i = 0; i < n; ++i) {
        c.kind.push_back(kinds.begin()[vc::choose("kind", kinds.size())]);
        c.label.push_back(kLabels[(first + i) % 5]);
    }
    return c;
}
static void build(StreamSchema& s, const Channels& c) { for (size_t i = 0; i < c.kind.size(); ++i) add(s, c.kind[i], c.label[i]); }

VC_CONTRACT(dimensions, int, bounded, "the dimensions of a stream are those of the channels' variants, in order: each dimension is that of exactly one variant of one channel, and what is out of range is refused; time, if it is a channel, comes last")
{
    Channels c = channels(3, {Inc, ValLL, Cat0, Cat2, Cat3, LieCh});
    StreamSchema s;
    build(s, c);
    bool timed = ask("time is a channel");
    if (timed) s.parametrization()->add_as_channel();
    size_t dim = 0;
    ENSURES(s.size() == c.kind.size(), "channels");
    for (size_t i = 0; i < c.kind.size(); ++i) {
        ENSURES(s.channel_to_stream_dim(i) == dim, "first dimension of a channel");
        size_t nv = variants_of(c.kind[i]);
        ENSURES(s.nth(i)->second->num_variants() == nv, "variants of a channel");
        for (size_t v = 0; v < nv; ++v, ++dim) {
            ENSURES(s.channel_variant_to_stream_dim(i, v) == dim, "dimension of a variant");
            auto back = s.stream_dim_to_channel(dim);
            ENSURES(back.first == i && back.second == v, "variant of a dimension");
        }
        ENSURES(refused([&] { (void)s.channel_variant_to_stream_dim(i, nv); }), "no such variant");
    }
    ENSURES(s.width_without_param() == dim && s.width() == dim + (timed ? 1 : 0), "width");
    ENSURES(refused([&] { (void)s.channel_to_stream_dim(c.kind.size()); }), "no such channel");
    ENSURES(refused([&] { (void)s.stream_dim_to_channel(dim); }), "no such dimension");
    ENSURES(s.time_channel_to_lie_key() == (timed ? dim + 1 : 0), "letter of time");
    COVER("read");
}
VC_CONTRACT(labels, int, bounded, "every dimension has its own label, which names it; the label of a channel names its first dimension; labels that belong to no channel are refused; the letters of a Lie algebra are the dimensions, from one")
{
    Channels c = channels(3, {Inc, ValLL, IncLL, Cat1, Cat3});
    StreamSchema s;
    build(s, c);
    size_t dim = 0;
    for (size_t i = 0; i < c.kind.size(); ++i) {
        ENSURES(s.label_of_channel_id(i) == c.label[i] && s.label_to_stream_dim(c.label[i]) == dim, "channel");
        ENSURES(s.contains(c.label[i]), "contained");
        for (size_t v = 0; v < variants_of(c.kind[i]); ++v, ++dim) {
            string want = c.label[i] + suffix_of(c.kind[i], v);
            ENSURES(s.label_of_stream_dim(dim) == want && s.label_of_channel_variant(i, v) == want, "label of a dimension");
            ENSURES(s.label_to_stream_dim(want) == dim && s.label_to_lie_key(want) == dim + 1, "dimension of a label");
        }
        if (c.kind[i] != Inc) ENSURES(refused([&] { (void)s.label_of_channel_variant(i, variants_of(c.kind[i])); }), "no such variant");
        if (c.kind[i] == Cat1 || c.kind[i] == Cat3) ENSURES(refused([&] { (void)s.label_to_stream_dim(c.label[i] + ":z"); }), "no variant of that label");
    }
    ENSURES(!s.contains("c") && !s.contains("a_longer") && refused([&] { (void)s.label_to_stream_dim("c"); }) && refused([&] { (void)s.label_of_stream_dim(dim); }), "no such label");
    COVER("read");
}
VC_CONTRACT(insertion, int, bounded, "a channel inserted under a label that is there is the channel that is there; one without a label gets one of its own; a schema that is final takes no more, and has as many dimensions as it was asked for, or refuses")
{
    Channels c = channels(3, {Inc, Cat2, ValLL});
    StreamSchema s;
    build(s, c);
    size_t n = c.kind.size(), width = 0;
    for (auto k : c.kind) width += variants_of(k);
    unsigned step = vc::choose("step", 4);
    if (step == 0) {
        for (size_t i = 0; i < n; ++i) {
            StreamChannel& had = *s.nth(i)->second;
            ENSURES(&s.insert_increment(c.label[i]) == &had && &s.insert_value(c.label[i]) == &had && s.size() == n, "the channel that is there");
        }
    } else if (step == 1) {
        StreamSchema t;
        bool numbered = ask("a label is a number");
        if (numbered) t.insert_increment("1");
        unsigned k = 1 + vc::choose("without labels", 3);
        for (unsigned i = 0; i < k; ++i) t.insert_increment("");
        size_t all = k + (numbered ? 1 : 0);
        ENSURES(t.size() == all && t.width() == all, "one channel each");
        for (size_t i = 0; i < all; ++i) ENSURES(t.label_to_stream_dim(t.label_of_stream_dim(i)) == i, "a label of its own");
    } else if (step == 2) {
        int want = (int)vc::choose("dimensions", 9) - 1;
        bool timed = ask("time is a channel");
        if (timed) s.parametrization()->add_as_channel();
        size_t has = width + timed;
        bool bad = want > 0 && (size_t)want < has;
        ENSURES(refused([&] { s.finalize(want); }) == bad, "refused when too few");
        if (!bad) {
            ENSURES(s.is_final() && s.width() == (want > (int)has ? (size_t)want : has), "dimensions");
            ENSURES(refused([&] { s.insert_increment("new"); }) && s.size() + 0 >= n, "no more");
            for (size_t i = 0; i < s.width_without_param(); ++i) ENSURES(s.label_to_stream_dim(s.label_of_stream_dim(i)) == i, "labels");
        }
    } else {
        size_t w = vc::choose("width", 4);
        StreamSchema t(w);
        ENSURES(t.width() == w && t.size() == w, "one channel for each dimension");
        for (size_t i = 0; i < w; ++i) ENSURES(t.label_of_stream_dim(i) == std::to_string(i) && t.nth(i)->second->type() == ChannelType::Increment, "increments");
        StreamSchema u(std::move(t));
        ENSURES(u.width() == w, "moved");
    }
    COVER("inserted");
}
VC_CONTRACT(variants, int, bounded, "a categorical channel has the variants added, in order; adding one that is there is refused, inserting it changes nothing; one without a label is labelled by its number")
{
    CategoricalChannel ch;
    std::vector<string> model;
    unsigned n = vc::choose("operations", 4);
    static const char* names[] = {"x", "xy", "", "1"};
    for (unsigned i = 0; i < n; ++i) {
        string name = names[vc::choose("variant", 4)], full = name.empty() ? std::to_string(model.size()) : name;
        bool has = std::find(model.begin(), model.end(), full) != model.end();
        if (ask("insert")) { ch.insert_variant(name); }
        else ENSURES(refused([&] { ch.add_variant(name); }) == has, "added twice");
        if (!has) model.push_back(full);
    }
    ENSURES(ch.num_variants() == model.size() && ch.get_variants() == model, "variants");
    for (size_t v = 0; v < model.size(); ++v) ENSURES(ch.variant_id_of_label(model[v]) == v && ch.label_suffix(v) == ":" + model[v], "labels");
    ENSURES(refused([&] { (void)ch.label_suffix(model.size()); }) && refused([&] { (void)ch.variant_id_of_label("none"); }), "no such variant");
    ENSURES(ch.type() == ChannelType::Categorical && !ch.is_lead_lag(), "type");
    COVER("read");
}
VC_CONTRACT(conversion, real, bounded, "data for a channel are converted into the array given for them, number by number")
{
    IncrementChannel ch;
    size_t n = vc::choose("size", 3);
    double src[2] = {vc::num("value"), vc::num("value")};
    ScalarArray from(dtype(), (const void*)src, n), to;
    if (n > 0 && ask("made")) to = dtype()->allocate(n); else to = ScalarArray(dtype(), (void*)nullptr, 0);
    ch.convert_input(to, from);
    for (size_t i = 0; i < n; ++i) ENSURES(to.size() == n && vc::eq(to[i].as_type<double>(), src[i]), "converted");
    COVER("converted");
}
// what a tick adds to the letters, as the documentation of channels says
VC_CONTRACT(ticks, real, bounded, "ticks become Lie elements at their parameters, in order of parameter and then of arrival: an increment adds to the letter of its channel, a value adds its change since the last one, to the lead and then to the lag if there is one, a category counts one in the letter of its variant; it does not matter whether channels and variants are given by number or by label")
{
    struct Case { Kind kind[3]; } static const cases[] = {{{Inc, ValLL, Cat2}}, {{Cat2, Val, Inc}}, {{ValLL, Cat3, Val}}, {{Cat1, Inc, ValLL}}};
    const Case& k = cases[vc::choose("schema", 4)];
    auto s = std::make_shared<StreamSchema>();
    size_t base[3], W = 0;
    for (int i = 0; i < 3; ++i) { add(*s, k.kind[i], kLabels[i]); base[i] = W; W += variants_of(k.kind[i]); }
    Shape sh{(int)W, 1};
    StreamConstructionHelper h(ctx_of(sh), s, VectorType::Dense);
    struct Entry { double at; size_t letter; double by; };
    std::vector<Entry> model;
    auto put = [&](double at, size_t letter, double by) {
        size_t p = 0; while (p < model.size() && model[p].at <= at) ++p;
        model.insert(model.begin() + p, Entry{at, letter, by});
    };
    double previous[3] = {0, 0, 0};
    static const double times[] = {0.5, 0.25, 0.5, 1.0};
    unsigned n = 1 + vc::choose("ticks", 3);
    for (unsigned i = 0; i < n; ++i) {
        unsigned ch = vc::choose("channel", 3), how = vc::choose("given by", 2);
        double at = times[(i + n) % 4];
        string label = kLabels[ch];
        Kind kind = k.kind[ch];
        if (kind == Inc) {
            double x = vc::num("increment");
            if (how) h.add_increment(at, string_view(label), x); else h.add_increment(at, (dimn_t)ch, x);
            put(at, base[ch], x);
        } else if (kind == Val || kind == ValLL) {
            double x = vc::num("value");
            if (how) h.add_value(at, string_view(label), x); else h.add_value(at, (dimn_t)ch, x);
            put(at, base[ch], x - previous[ch]);
            if (kind == ValLL) put(at, base[ch] + 1, x - previous[ch]);
            previous[ch] = x;
        } else {
            unsigned v = vc::choose("variant", variants_of(kind)), named = vc::choose("variant given by", 2);
            if (how) { if (named) h.add_categorical(at, string_view(label), string_view(kVariants[v])); else h.add_categorical(at, string_view(label), (dimn_t)v); }
            else { if (named) h.add_categorical(at, (dimn_t)ch, string_view(kVariants[v])); else h.add_categorical(at, (dimn_t)ch, (dimn_t)v); }
            put(at, base[ch] + v, 1.0);
        }
        ENSURES(h.type_of(label) && *h.type_of(label) == s->nth(ch)->second->type(), "type of a channel");
    }
    ENSURES(!h.type_of("none"), "no such channel");
    ENSURES(refused([&] { h.add_categorical(0.5, (dimn_t)3, (dimn_t)0); }), "no such channel to add to");
    auto entries = h.finalise();
    ENSURES(entries.size() == model.size(), "one element for each");
    size_t i = 0;
    for (auto& e : entries) {
        ENSURES(e.first == model[i].at, "parameter");
        ref::Vec want(W, 0.0); want[model[i].letter] = model[i].by;
        EQUAL_COEFS(coefs(e.second, W, 1), want, "element");
        ++i;
    }
    COVER("assembled");
}
