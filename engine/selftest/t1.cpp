#include "../sx.h"
#include <map>
#include <vector>
#include <stdexcept>
#include <unordered_map>
#include <algorithm>
#include <string_view>
#include <sstream>
#include <regex>
extern "C" void sx_setup(){}
static int f(int x){ if (x<0) throw std::runtime_error("neg"); return x*2; }
static const char tab[16]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15};
extern "C" void sx_main()
{
    int which = sx::choose("which", 9);
    if (which==0){
        int a=sx::any<int>("a"), b=sx::any<int>("b");
        sx::assume(a>=0 && a<1000 && b>0 && b<1000);
        sx::check(a/b*b+a%b==a, "div");
        sx::cover("div");
    } else if (which==1){
        std::string s=sx::str("s",3);
        std::map<std::string,int> m{{"abc",1},{"abd",2},{"xyz",3}};
        auto it=m.find(s);
        if(it!=m.end()){ sx::cover(it->first.c_str()); sx::check(it->second>=1&&it->second<=3,"m"); sx::check(s[0]=='a'||s[0]=='x',"first");}
        else sx::check(s!="abc","nf");
    } else if (which==2){
        int x=sx::any<int>("x");
        sx::assume(x>-1000&&x<1000);
        try { int r=f(x); sx::check(r==x+x,"dbl"); sx::cover("noexc");} catch(std::runtime_error&e){ sx::check(x<0,"exc"); sx::cover("exc");}
    } else if (which==3){
        unsigned char i=sx::byte_in("i",0,15);
        sx::check(tab[i]==i,"tab");
        std::unordered_map<std::string,int> u{{"k0",0},{"k1",1},{"k2",2}};
        std::string k="k"; k+=char('0'+(i&3));
        auto it=u.find(k);
        if(it!=u.end()) {sx::check(it->second==(i&3),"umap"); sx::cover("umapfound");} else {sx::check((i&3)==3,"umapmiss");sx::cover("umapmiss");}
    } else if (which==4){
        std::vector<int> v; for(int i=0;i<4;++i) v.push_back(sx::any<signed char>("v"));
        int sum=0; for(int x:v) sum+=x;
        std::sort(v.begin(),v.end());
        sx::check(std::is_sorted(v.begin(),v.end()),"sorted");
        int s2=0; for(int x:v) s2+=x; sx::check(sum==s2,"perm");
        sx::cover("sort");
    } else if (which==5){
        std::string s=sx::str("num",3);
        for(char c:s) sx::assume(c>='0'&&c<='9');
        int n=std::stoi(s);
        sx::check(n==(s[0]-'0')*100+(s[1]-'0')*10+(s[2]-'0'),"stoi");
        sx::check(std::to_string(n+1000)==std::string("1")+s,"to_string");
        std::ostringstream o; o<<s<<","<<n;
        sx::check(o.str()==s+","+std::to_string(n),"oss");
        sx::cover("num");
    } else if (which==6){
        std::string s=sx::str("re",3);
        std::regex r("a.*b");
        bool m=std::regex_match(s,r);
        sx::check(m==(s[0]=='a'&&s[2]=='b'&&s[1]!='\n'&&s[1]!='\r'),"re");
        sx::cover(m?"re1":"re0");
    } else if (which==7){
        std::string s=sx::str("sv",4); std::string_view v=s;
        auto p=v.find('x'); if(p!=std::string_view::npos){ sx::check(s[p]=='x',"find"); sx::cover("found"); for(size_t i=0;i<p;++i) sx::check(s[i]!='x',"first");} else sx::check(s[0]!='x'&&s[3]!='x',"nf2");
        std::string up=s; std::transform(up.begin(),up.end(),up.begin(),[](char c){return toupper((unsigned char)c);});
        for(size_t i=0;i<4;++i) sx::check(up[i]==((s[i]>='a'&&s[i]<='z')?s[i]-32:s[i]),"upper");
    } else {
#ifdef BUG
        unsigned x=sx::any<unsigned>("x"); sx::check(x*3!=0x12345u,"planted");
#endif
        sx::cover("last");
    }
}
