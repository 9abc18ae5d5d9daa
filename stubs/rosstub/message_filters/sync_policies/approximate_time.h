#pragma once
#include "message_filters/subscriber.h"
namespace message_filters { namespace sync_policies {
template <class A, class B>
struct ApproximateTime {
  typedef A First;
  typedef B Second;
  explicit ApproximateTime(uint32_t) {}
};
template <class A, class B>
struct ExactTime {
  typedef A First;
  typedef B Second;
  explicit ExactTime(uint32_t) {}
};
} }
