#pragma once
#include "c33_app.hpp"
extern "C" {
APP void enter(app_obj& o);
APP void leave(app_obj& o);
APP const dynamix::mixin_info* info();
APP int own(app_obj& o);
}
