// What the assertions of googletest mean to a caller: whether a failure was reported.
#pragma once
#include <cmath>
#include <sstream>
#include <string>
#include <algorithm>
namespace testing {
extern bool failed;
struct Message {
  template <typename T> const Message& operator<<(const T&) const { return *this; }
  const Message& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; }
};
struct Report { void operator=(const Message&) const { failed = true; } };
}  // namespace testing
#define SM_STUB_ASSERT(holds) if (holds) ; else return ::testing::Report() = ::testing::Message()
#define SM_STUB_EXPECT(holds) if (holds) ; else ::testing::Report() = ::testing::Message()
#define ASSERT_TRUE(c) SM_STUB_ASSERT(c)
#define EXPECT_TRUE(c) SM_STUB_EXPECT(c)
#define ASSERT_FALSE(c) SM_STUB_ASSERT(!(c))
#define EXPECT_FALSE(c) SM_STUB_EXPECT(!(c))
#define ASSERT_EQ(a, b) SM_STUB_ASSERT((a) == (b))
#define EXPECT_EQ(a, b) SM_STUB_EXPECT((a) == (b))
#define ASSERT_NE(a, b) SM_STUB_ASSERT((a) != (b))
#define EXPECT_NE(a, b) SM_STUB_EXPECT((a) != (b))
#define ASSERT_LE(a, b) SM_STUB_ASSERT((a) <= (b))
#define EXPECT_LE(a, b) SM_STUB_EXPECT((a) <= (b))
#define ASSERT_LT(a, b) SM_STUB_ASSERT((a) < (b))
#define EXPECT_LT(a, b) SM_STUB_EXPECT((a) < (b))
#define ASSERT_GE(a, b) SM_STUB_ASSERT((a) >= (b))
#define EXPECT_GE(a, b) SM_STUB_EXPECT((a) >= (b))
#define ASSERT_GT(a, b) SM_STUB_ASSERT((a) > (b))
#define EXPECT_GT(a, b) SM_STUB_EXPECT((a) > (b))
#define ASSERT_NEAR(a, b, t) SM_STUB_ASSERT(std::fabs((double)(a) - (double)(b)) <= (double)(t))
#define EXPECT_NEAR(a, b, t) SM_STUB_EXPECT(std::fabs((double)(a) - (double)(b)) <= (double)(t))
#define ADD_FAILURE() ::testing::Report() = ::testing::Message()
#define FAIL() return ::testing::Report() = ::testing::Message()
