#pragma once
#include <compare>
#include <boost/pfr.hpp>
#define CISTA_COMPARABLE()                                                                              \
  template <typename ShimT> bool operator==(ShimT const& b) const { return boost::pfr::eq_fields(*this, b); } \
  template <typename ShimT> bool operator!=(ShimT const& b) const { return boost::pfr::ne_fields(*this, b); } \
  template <typename ShimT> bool operator<(ShimT const& b) const { return boost::pfr::lt_fields(*this, b); }  \
  template <typename ShimT> bool operator<=(ShimT const& b) const { return boost::pfr::le_fields(*this, b); } \
  template <typename ShimT> bool operator>(ShimT const& b) const { return boost::pfr::gt_fields(*this, b); }  \
  template <typename ShimT> bool operator>=(ShimT const& b) const { return boost::pfr::ge_fields(*this, b); }
