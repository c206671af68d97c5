// Symbolic run only: facet look-up without a locale object.  In a file of its own, because the headers instantiate
// these functions; the definitions here replace the instantiations at link time.
#define protected public
#define private public
#include <iosfwd>
#include <locale>
#include <ios>
#undef protected
#undef private
namespace std {
const ctype<char>* fsym_ctype(); const num_put<char>* fsym_num_put(); const num_get<char>* fsym_num_get(); const codecvt<char, char, mbstate_t>* fsym_codecvt();
void cacheLocale(basic_ios<char>* s, const locale&) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale");
void cacheLocale(basic_ios<char>* s, const locale&){ s->_M_ctype = fsym_ctype(); s->_M_num_put = fsym_num_put(); s->_M_num_get = fsym_num_get(); }
const ctype<char>* useCtype(const locale&) asm("_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale");
const ctype<char>* useCtype(const locale&){ return fsym_ctype(); }
bool hasCtype(const locale&) asm("_ZSt9has_facetISt5ctypeIcEEbRKSt6locale");
bool hasCtype(const locale&){ return true; }
const codecvt<char, char, mbstate_t>* useCvt(const locale&) asm("_ZSt9use_facetISt7codecvtIcc11__mbstate_tEERKT_RKSt6locale");
const codecvt<char, char, mbstate_t>* useCvt(const locale&){ return fsym_codecvt(); }
bool hasCvt(const locale&) asm("_ZSt9has_facetISt7codecvtIcc11__mbstate_tEEbRKSt6locale");
bool hasCvt(const locale&){ return true; }
const codecvt<char, char, mbstate_t>* tryCvt(const locale&) asm("_ZSt15__try_use_facetISt7codecvtIcc11__mbstate_tEEPKT_RKSt6locale");
const codecvt<char, char, mbstate_t>* tryCvt(const locale&){ return fsym_codecvt(); }
}
// Bucket choice of the hash containers: any bucket below the count is allowed by the contract; a mask instead of a
// division by a prime keeps the solver's formulas small.
extern "C" unsigned long fsym_bucket(const void*, unsigned long num, unsigned long den) asm("_ZNKSt8__detail18_Mod_range_hashingclEmm");
extern "C" unsigned long fsym_bucket(const void*, unsigned long num, unsigned long den){ unsigned long p = 1; while(p * 2 <= den) p *= 2; return num & (p - 1); }
