#pragma once
namespace testing {
struct UnitTest { static UnitTest* GetInstance() { static UnitTest u; return &u; } int random_seed() const { return 0; } };
}
