// a plugin, chosen by PLUGIN
#include "c33_app.hpp"
#include "c33_plugin.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/dm_this.hpp>

DYNAMIX_MAKE_FUNC_TRAITS(visit);
DYNAMIX_MAKE_FUNC_TRAITS(name_of);

#if PLUGIN == 0 || PLUGIN == 1 // two versions of the same mixin
struct plug_a { int v = 70 + PLUGIN; std::string text = std::string(50, 'a'); void visit(strings& s) { s.push_back(PLUGIN ? "plug_a mod" : "plug_a"); } };
using mixin = plug_a;
DYNAMIX_DEFINE_MIXIN(app, plug_a)
    .implements_by<value_msg>([](const plug_a* a) { return a->v; }, 1_bid)
    .implements<visit_msg>()
    .on_mutation(also_adds<beta>{});
static int own_call(app_obj&) { return -1; }
#elif PLUGIN == 2
struct plug_b { void visit(strings& s) { s.push_back("plug_b"); } };
using mixin = plug_b;
DYNAMIX_DEFINE_MIXIN(app, plug_b)
    .implements<visit_msg>()
    .on_mutation(attaches_to<alpha>{});
DYNAMIX_DECLARE_TYPE_CLASS(plug_tc);
static bool has_plug_b(dnmx_type_handle h) noexcept { return dynamix::type::from_c_handle(h)->has(dynamix::g::get_mixin_info<plug_b>()); }
DYNAMIX_DEFINE_TYPE_CLASS_WITH(app, plug_tc, has_plug_b);
static int own_call(app_obj& o) { return o.get_type().is_of<plug_tc>() ? 1 : 0; }
#else
// a message of the plugin itself
DYNAMIX_DECLARE_SIMPLE_MSG(own_msg, int(app_obj&, int));
DYNAMIX_DEFINE_SIMPLE_MSG(own_msg, unicast);
#   if PLUGIN == 3
// the plugin takes its message out of the domain
static struct unregister_own { ~unregister_own() {
    auto& f = const_cast<dynamix::feature_info&>(own_msg::info);
    if (f.id != dynamix::invalid_feature_id) dynamix::g::get_domain<app>().unregister_feature(f);
} } unregister_own_;
#   endif
struct plug_c { int own(int i) { return 900 + i; } std::string name_of(int i) const { return "plug_c " + std::to_string(i); } };
using mixin = plug_c;
DYNAMIX_DEFINE_MIXIN(app, plug_c)
    .implements_by<own_msg>([](plug_c* c, int i) { return c->own(i); })
    .implements<name_msg>(2_bid);
static int own_call(app_obj& o) { try { return own_msg::call(o, 9); } catch (dynamix::feature_error&) { return -2; } }
#endif

extern "C" {
APP void enter(app_obj& o) { dynamix::mutate(o, dynamix::add<mixin>()); }
APP void leave(app_obj& o) { dynamix::mutate(o, dynamix::remove<mixin>()); }
APP const dynamix::mixin_info* info() { return &dynamix::g::get_mixin_info<mixin>(); }
APP int own(app_obj& o) { return own_call(o); }
}
