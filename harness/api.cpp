#include "api.hpp"
const char* const OP_TXT[4] = {"+", "-", "*", "/"};
const char* const CMP_TXT[6] = {"==", "!=", "<", "<=", ">", ">="};
const char* const DESC_TXT[5] = {"BN_POS", "BN_NEG", "BN_NAN", "BN_POS_INF", "BN_NEG_INF"};
void register1(std::vector<const Api*>&);
void register2(std::vector<const Api*>&);
void register3(std::vector<const Api*>&);
void register4(std::vector<const Api*>&);
void register5(std::vector<const Api*>&);
const std::vector<const Api*>& all_apis() {
    // never destroyed: c23 uses it until the last destructor of the process
    static const std::vector<const Api*>& v = *[] {
        std::vector<const Api*>& r = *new std::vector<const Api*>;
        register1(r); register2(r); register3(r); register4(r); register5(r);
        return &r;
    }();
    return v;
}
std::vector<const Api*>& extra_apis() { static std::vector<const Api*>& v = *new std::vector<const Api*>; return v; }
const Api* api_by_name(const std::string& n) {
    for (const Api* a : extra_apis()) if (n == a->name) return a;
    for (const Api* a : all_apis()) if (n == a->name) return a;
    return nullptr;
}
