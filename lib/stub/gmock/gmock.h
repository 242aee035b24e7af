// What util/test_util.h needs of the test framework.
#pragma once
#include "gtest/gtest.h"
#define MATCHER(name, text) struct name##Matcher { template <class T> bool operator()(const T& arg) const; }; \
  inline name##Matcher name() { return name##Matcher(); } \
  template <class T> bool name##Matcher::operator()(const T& arg) const
