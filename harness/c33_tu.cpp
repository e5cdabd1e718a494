// one translation unit of the program, chosen by TU
#if TU >= 7
#   define C33_V1
#endif
#include "c33_app.hpp"
#include <dynamix/define_domain.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/object_of.hpp>

static watcher w(TU);

DYNAMIX_MAKE_FUNC_TRAITS(visit);
DYNAMIX_MAKE_FUNC_TRAITS(name_of);

#if TU == 0
#include "c33_res.hpp"
DYNAMIX_DEFINE_DOMAIN(app, "app", [] { dynamix::domain_settings s{}; s.canonicalize_types = true; return s; }(), 4242, nullptr, dynamix::allocator(&domain_memory()));
#elif TU == 1
DYNAMIX_DEFINE_SIMPLE_MSG(value_msg, unicast);
DYNAMIX_DEFINE_MSG(visit_msg, multicast, visit, void, (app_obj&, strings&));
#elif TU == 2
static std::string no_name(const app_obj&, int i) { return "none " + std::to_string(i); }
DYNAMIX_DEFINE_MSG_EX(name_msg, unicast, true, no_name, name_of, std::string, (const app_obj&, int));
#elif TU == 3
struct alpha { int v = 5; void visit(strings& s) { s.push_back("alpha"); } };
DYNAMIX_DEFINE_MIXIN(app, alpha)
    .implements_by<value_msg>([](const alpha* a) { return a->v; })
    .implements<visit_msg>(1_prio)
    .on_mutation(also_adds<beta>{});
#elif TU == 4
struct beta { char pad[40] = {}; void visit(strings& s) { s.push_back("beta"); } std::string name_of(int i) const { return "beta " + std::to_string(i); } };
DYNAMIX_DEFINE_MIXIN(app, beta)
    .implements<visit_msg>(2_prio)
    .implements<name_msg>();
#elif TU == 5
struct gamma_mixin { void visit(strings& s) { s.push_back("gamma"); } };
DYNAMIX_DEFINE_MIXIN(app, gamma_mixin)
    .store_name(std::string("gamma") + " which is attached")
    .implements<visit_msg>(3_prio)
    .on_mutation(attaches_to<alpha>{});
#elif TU == 6
static bool is_full(dnmx_type_handle h) noexcept { auto t = dynamix::type::from_c_handle(h); return t->has(dynamix::g::get_mixin_info<alpha>()) && t->has(dynamix::g::get_mixin_info<beta>()); }
DYNAMIX_DEFINE_TYPE_CLASS_WITH(app, full, is_full);
#elif TU == 7
DYNAMIX_V1_DEFINE_MESSAGE(v1_visit);
DYNAMIX_V1_DEFINE_MESSAGE_0_WITH_DEFAULT_IMPL(int, v1_value) { return 1; }
#elif TU == 8
class v1_first { public: void v1_visit(strings& s) { s.push_back("first"); } };
DYNAMIX_V1_DEFINE_MIXIN(v1_first, v1_visit_msg);
#elif TU == 9
class v1_second { public: void v1_visit(strings& s) { s.push_back("second"); } int v1_value() { return 2; } };
DYNAMIX_V1_DEFINE_MIXIN(v1_second, v1_value_msg & dynamix::v1compat::bid(1, v1_visit_msg) & dynamix::v1compat::mixin_name("the second"));
#elif TU == 10
DYNAMIX_V1_DEFINE_TYPE_CLASS(v1_both) { return type.has<v1_first>() && type.has<v1_second>(); }
#endif
