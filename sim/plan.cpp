// Plans as text.
#include "sim.h"
#include <sstream>
std::string wstr(const std::wstring& s){ std::string r; char b[16]; for(wchar_t c:s){ if(c>=32&&c<127&&c!='\\') r+=(char)c; else { snprintf(b,sizeof b,"\\x%x.",(unsigned)c); r+=b; } } return r; }
std::string describeStep(const Step& s){
  std::ostringstream o; o<<s.t;
  if(s.t=='H'){ o<<' '<<hostNames[s.h]; for(int i=0;i<4;++i) o<<' '<<s.ha[i]; return o.str(); }
  if(s.t=='R'){ if(s.op.failAt) o<<" fail="<<s.op.failAt; return o.str(); }
  if(s.t=='E') return o.str();
  o<<' '<<opNames[s.op.code]; int n=(int)strlen(opSigs[s.op.code]); for(int i=0;i<n;++i) o<<' '<<s.op.a[i];
  if(s.op.failAt) o<<" fail="<<s.op.failAt; if(s.op.failSticky) o<<" sticky=1"; if(s.op.caught) o<<" caught=1"; if(s.out>=0) o<<" out="<<s.out;
  return o.str();
}
std::string Plan::print() const {
  std::ostringstream o; o<<"plan 1\nprop "<<prop<<"\nseed "<<seed<<"\n"; if(!variant.empty()) o<<"variant "<<variant<<"\n";
  for(auto& c:cfg) o<<"cfg "<<c.first<<' '<<c.second<<"\n";
  for(auto& l:lits){ o<<"lit"; for(wchar_t c:l) o<<' '<<(unsigned)c; o<<"\n"; }
  for(auto b:bufs) o<<"buf "<<b<<"\n";
  for(auto& z:zones){ o<<"zone "<<z.std<<' '<<z.dst<<' '<<z.has<<' '<<z.sm<<' '<<z.sw<<' '<<z.sd<<' '<<z.st<<' '<<z.em<<' '<<z.ew<<' '<<z.ed<<' '<<z.et; if(!z.tr.empty()){ o<<" file "<<z.first; for(auto& t:z.tr) o<<' '<<t.at<<' '<<t.off<<' '<<t.dst; } o<<"\n"; }
  for(auto& s:steps) o<<describeStep(s)<<"\n";
  return o.str();
}
bool Plan::parse(const std::string& text,Plan& p){
  std::istringstream in(text); std::string line; p=Plan(); std::map<std::string,int> ops,hs; for(int i=0;i<OP_COUNT;++i) ops[opNames[i]]=i; for(int i=0;i<H_COUNT;++i) hs[hostNames[i]]=i;
  while(std::getline(in,line)){
    if(line.empty()||line[0]=='#') continue; std::istringstream l(line); std::string k; l>>k;
    if(k=="plan") continue; if(k=="prop") l>>p.prop; else if(k=="variant") l>>p.variant; else if(k=="seed") l>>p.seed; else if(k=="cfg"){ std::string n; int64_t v; l>>n>>v; p.cfg[n]=v; }
    else if(k=="lit"){ std::wstring s; unsigned c; while(l>>c) s+=(wchar_t)c; p.lits.push_back(s); } else if(k=="buf"){ int64_t v; l>>v; p.bufs.push_back(v); }
    else if(k=="zone"){ Zone z; l>>z.std>>z.dst>>z.has>>z.sm>>z.sw>>z.sd>>z.st>>z.em>>z.ew>>z.ed>>z.et; std::string f; if(l>>f){ l>>z.first; Zone::Tr t; while(l>>t.at>>t.off>>t.dst) z.tr.push_back(t); } p.zones.push_back(z); }
    else if(k.size()==1&&strchr("DRPEH",k[0])){
      Step s; s.t=k[0]; std::string n;
      if(s.t=='H'){ l>>n; if(!hs.count(n)) return false; s.h=hs[n]; for(int i=0;i<4;++i) l>>s.ha[i]; }
      else if(s.t=='D'||s.t=='P'){ l>>n; if(!ops.count(n)) return false; s.op.code=ops[n]; int c=(int)strlen(opSigs[s.op.code]); for(int i=0;i<c;++i) if(!(l>>s.op.a[i])) return false; l.clear(); }
      while(l>>n){ size_t e=n.find('='); if(e==std::string::npos) return false; int v=atoi(n.c_str()+e+1); std::string q=n.substr(0,e); if(q=="fail") s.op.failAt=v; else if(q=="sticky") s.op.failSticky=v; else if(q=="caught") s.op.caught=v; else if(q=="out") s.out=v; }
      p.steps.push_back(s);
    } else return false;
  }
  return true;
}
