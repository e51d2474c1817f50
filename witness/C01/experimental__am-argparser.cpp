#include <amtl/experimental/am-argparser.h>   // first, and alone

using namespace ke;
using namespace ke::args;
template class ke::args::Option<int>;
template class ke::args::Option<bool>;
template class ke::args::Option<std::string>;
template class ke::args::RepeatOption<std::string>;
template class ke::args::RepeatOption<int>;
template class ke::args::VectorOption<std::string>;
static StopOption sStop("v", "version", Some(false), "Print");
static Option<int> sInt("i", "int", Some(3), "An int");
static Option<std::string> sPos("pos", "Positional");
static EnableOption sEn("e", "enable", false, "Enable");
static ToggleOption sTog("t", "toggle", Some(true), "Toggle");
static RepeatOption<std::string> sRep("r", "rep", "Rep");
bool use(int argc, char** argv, const std::vector<const char*>& a, const std::vector<std::string>& b) {
    Parser p, q("help");
    p.enable_inline_values(); p.allow_slashes(); p.collect_extra_args(); p.allow_passthrough_args();
    p.set_usage_line("x"); p.add_usage_line("--x", "y");
    Option<int> oi(p, "a", "aa", Some(1), "h"), oi2(p, "aa2", nullptr, Nothing(), "h");
    Option<bool> ob(p, nullptr, "bool", Some(false), "h");
    Option<std::string> os(p, "s", "str", Nothing(), "h"), op(p, "name", "help");
    EnableOption e(p, "e", "en", false, "h");
    ToggleOption t(p, "t", "tog", Some(false), "h");
    StopOption st(p, "z", "stop", Some(false), "h");
    RepeatOption<std::string> r(p, "r", "rr", "h");
    RepeatOption<int> ri(p, "n", "nn", "h");
    bool ok = p.parse(argc, argv) && p.parse(a) && p.parse(b) && p.parsev("x", nullptr);
    p.usage(stdout, argc, argv); p.usage_line(argv, stdout); p.reset();
    const auto& cr = r;
    ok = ok && p.extra_args().empty() && p.passthrough_args().empty() && r.values().empty() && cr.values().empty();
    return ok && oi.hasValue() && oi.value() == 3 && oi.maybeValue().isValid() && e.value() && t.value() && st.value() && os.value().empty() && ob.value();
}
