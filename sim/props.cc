#include "session.h"
namespace sim {
void prop_C01(Run&, bool);
void prop_C02(Run&, bool);
void prop_C03(Run&, bool);
void prop_C04(Run&, bool);
void prop_C05(Run&, bool);
void prop_C06(Run&, bool);
void prop_C08(Run&, bool);
void prop_C11(Run&, bool);
void prop_C12(Run&, bool);
void prop_C13(Run&, bool);
void prop_C14(Run&, bool);
void prop_C10(Run&, bool);
void prop_C16(Run&, bool);
void prop_C15(Run&, bool);
void prop_C09(Run&, bool);
void prop_C19(Run&, bool);
void prop_C18(Run&, bool);
void prop_C17(Run&, bool);
void prop_C07(Run&, bool);
void prop_C23(Run&, bool);
const std::vector<Prop>& props() {
  static const std::vector<Prop> v = {
      {"C01", prop_C01, 10000, 200000, 50}, {"C02", prop_C02, 5000, 200000, 50}, {"C03", prop_C03, 24000, 200000, 50},
      {"C04", prop_C04, 30000, 200000, 50}, {"C05", prop_C05, 4000, 200000, 50}, {"C06", prop_C06, 10000, 200000, 50},
      {"C08", prop_C08, 3200, 200000, 50},
      {"C07", prop_C07, 6000, 200000, 50},
      {"C15", prop_C15, 7000, 200000, 50},
      {"C16", prop_C16, 7000, 200000, 50},
      {"C17", prop_C17, 20000, 200000, 50},
      {"C18", prop_C18, 5000, 200000, 50},
      {"C19", prop_C19, 3500, 200000, 50},
      {"C09", prop_C09, 3500, 200000, 50},
      {"C10", prop_C10, 12000, 200000, 50},
      {"C11", prop_C11, 4000, 200000, 50},
      {"C12", prop_C12, 4000, 200000, 2},
      {"C13", prop_C13, 20000, 200000, 50},
      {"C14", prop_C14, 10000, 200000, 50},
      {"C23", prop_C23, 6000, 200000, 50},
  };
  return v;
}
}  // namespace sim
