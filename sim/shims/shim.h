#pragma once
#include "ops.h"
#include <new>
#include <cstring>
#define SHIM(T, KIND, ...) \
  static void cx_construct(void *m) { new (m) T; } \
  static Ops cx_make() { Ops o; std::memset(&o, 0, sizeof o); o.kind = KIND; o.ctx_size = sizeof(T); o.ctx_align = alignof(T); o.construct = cx_construct; __VA_ARGS__ return o; } \
  static const Ops cx_table = cx_make(); \
  extern "C" __attribute__((visibility("default"))) const Ops *cx_ops(void) { return &cx_table; }
