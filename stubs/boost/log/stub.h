// Inert stand-in for Boost.Log: every message is discarded; levels keep their documented numbering.
#ifndef BOOST_LOG_STUB_H
#define BOOST_LOG_STUB_H
#include <ostream>
#include <string>
namespace log_stub { struct Sink { template<class T> Sink& operator<<(const T&) { return *this; } Sink& operator<<(std::ostream&(*)(std::ostream&)) { return *this; } };
 struct FilterExpr{int level; int op;}; inline FilterExpr& filter() { static FilterExpr f{-1,0}; return f; }
 // does a message of this severity get through? op: 0 >=, 1 >, 2 ==, 3 <=, 4 <, 5 !=, 6 no filter
 inline bool passes(int sev){ FilterExpr f=filter(); switch(f.op){ case 0: return sev>=f.level; case 1: return sev>f.level; case 2: return sev==f.level; case 3: return sev<=f.level; case 4: return sev<f.level; case 5: return sev!=f.level; } return true; } }
namespace boost { namespace posix_time { struct ptime{}; } namespace log {
 namespace trivial { enum severity_level { trace, debug, info, warning, error, fatal }; struct sev_kw{}; static const sev_kw severity{}; 
  inline log_stub::FilterExpr operator>=(const sev_kw&, int l){ return {l,0}; } inline log_stub::FilterExpr operator>(const sev_kw&, int l){ return {l,1}; } inline log_stub::FilterExpr operator==(const sev_kw&, int l){ return {l,2}; }
  inline log_stub::FilterExpr operator<=(const sev_kw&, int l){ return {l,3}; } inline log_stub::FilterExpr operator<(const sev_kw&, int l){ return {l,4}; } inline log_stub::FilterExpr operator!=(const sev_kw&, int l){ return {l,5}; }
  inline log_stub::FilterExpr operator!(log_stub::FilterExpr f){ static const int neg[]={4,3,5,1,0,2,6}; f.op=neg[f.op]; return f; } }
 struct core { static core* get(){ static core c; return &c; } void set_filter(log_stub::FilterExpr f){ log_stub::filter()=f; } void reset_filter(){ log_stub::filter().op=6; } };
 inline void add_common_attributes(){}
 namespace sources{} 
 namespace expressions { struct fmt{}; struct strm{}; static const strm stream{}; static const fmt smessage{}; template<class T> fmt format_date_time(const char*,const char*){return {};} template<class X> strm operator<<(strm s,const X&){return s;} }
 namespace keywords { struct kw { template<class T> void operator=(const T&) const {} }; static const kw format{}; }
}}
#define BOOST_LOG_TRIVIAL(x) ::log_stub::Sink()
#endif
