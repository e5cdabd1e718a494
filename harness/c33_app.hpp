// The program of C33: a domain, messages, mixins, rules and a type class which are defined by the macros in several translation units,
// and plugins (shared libraries) which add to it.
#pragma once
#include <dynamix/declare_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/object.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/globals.hpp>
#include <string>
#include <vector>

#define APP __attribute__((visibility("default")))
DYNAMIX_DECLARE_EXPORTED_DOMAIN(APP, app);
struct APP app_obj : public dynamix::object { app_obj() : dynamix::object(dynamix::g::get_domain<app>()) {} };
using strings = std::vector<std::string>;

DYNAMIX_DECLARE_EXPORTED_SIMPLE_MSG(APP, value_msg, int(const app_obj&));
DYNAMIX_DECLARE_EXPORTED_MSG(APP, visit_msg, visit, void, (app_obj&, strings&));
DYNAMIX_DECLARE_EXPORTED_MSG(APP, name_msg, name_of, std::string, (const app_obj&, int));
DYNAMIX_DECLARE_EXPORTED_MIXIN(APP, struct alpha);
DYNAMIX_DECLARE_EXPORTED_MIXIN(APP, struct beta);
DYNAMIX_DECLARE_EXPORTED_MIXIN(APP, struct gamma_mixin);
DYNAMIX_DECLARE_EXPORTED_TYPE_CLASS(APP, full);

// one in front of everything in each translation unit: it is constructed before and destroyed after the other statics of the unit
struct APP watcher { int tu; explicit watcher(int tu); ~watcher(); };

// units of the compatibility layer
#ifdef C33_V1
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/type_class.hpp>
DYNAMIX_V1_MULTICAST_MESSAGE_1(void, v1_visit, strings&, s);
DYNAMIX_V1_MESSAGE_0(int, v1_value);
DYNAMIX_V1_DECLARE_MIXIN(v1_first);
DYNAMIX_V1_DECLARE_MIXIN(v1_second);
DYNAMIX_V1_TYPE_CLASS(v1_both);
#endif
