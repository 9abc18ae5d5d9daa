#pragma once
#include "message_filters/subscriber.h"
namespace message_filters {
// Which messages are paired is the synchroniser's business; the harness delivers pairs.
template <class P>
struct Synchronizer {
  typedef boost::function<void(const boost::shared_ptr<const typename P::First>&, const boost::shared_ptr<const typename P::Second>&)> F;
  std::string a, b;
  template <class S1, class S2>
  Synchronizer(const P&, S1& s1, S2& s2) : a(s1.topic), b(s2.topic) {}
  template <class C>
  void registerCallback(const C& c) { ros::stub::world()->subs[a + "+" + b].push_back(std::any(F(c))); }
};
}
