#include "vp.hpp"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <list>
#include <forward_list>
#include <queue>
#include <stack>
#include <array>
#include <algorithm>
#include <numeric>
#include <functional>
#include <memory>
#include <thread>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <future>
#include <sstream>
#include <stdexcept>
#include <limits>
#include <cmath>
#include <tuple>
#include <chrono>
#include <iterator>
#include <cstring>
#include <Eigen/Core>
static int part;
static void A(bool c, const char *l) { vp_assert(c, l); }
static void t0() {
    std::map<int,std::string> m; m[3]="c"; m[1]="a"; m.emplace(2,"b"); m.erase(1); A(m.size()==2 && m.begin()->second=="b", "map");
    A(m.count(3)&&m.find(9)==m.end(),"map2"); auto lb=m.lower_bound(3); A(lb->first==3,"lb");
    std::set<int> s{5,1,3}; s.insert(2); A(*s.begin()==1&&s.size()==4,"set");
    std::multimap<int,int> mm; mm.insert({1,2}); mm.insert({1,3}); A(mm.count(1)==2,"mm");
}
static void t1() {
    std::unordered_map<int,int> u; for(int i=0;i<30;i++) u[i*7]=i; A(u.size()==30&&u[14]==2,"um"); u.erase(14); A(u.count(14)==0,"um2");
    std::unordered_map<std::string,int> us; us["a"]=1; us["bb"]=2; A(us.at("bb")==2,"ums"); std::unordered_set<size_t> h{1,2,3}; A(h.count(2),"us");
}
static void t2() {
    std::deque<int> d; for(int i=0;i<200;i++){ d.push_back(i); d.push_front(-i);} A(d.size()==400&&d[399]==199,"deque"); d.pop_front(); d.erase(d.begin()+3);
    std::list<int> l{3,1,2}; l.sort(); A(l.front()==1,"list"); l.remove(2); l.reverse(); l.splice(l.end(), std::list<int>{9}); A(l.back()==9,"splice"); l.remove_if([](int x){return x==9;});
    std::forward_list<int> f{1,2}; f.push_front(0); A(f.front()==0,"fl");
    std::queue<int> q; q.push(1); q.push(2); q.pop(); A(q.front()==2,"queue"); std::stack<int> st; st.push(1); A(st.top()==1,"st");
    std::priority_queue<int> p; p.push(3); p.push(7); A(p.top()==7,"pq");
}
static void t3() {
    std::vector<int> v(50); std::iota(v.begin(), v.end(), 0); std::reverse(v.begin(), v.end()); std::sort(v.begin(), v.end()); A(v[10]==10,"sort");
    std::stable_sort(v.begin(), v.end(), std::greater<int>()); A(v[0]==49,"ssort"); std::partial_sort(v.begin(), v.begin()+5, v.end()); A(v[4]==4,"psort");
    std::nth_element(v.begin(), v.begin()+20, v.end()); A(v[20]==20,"nth"); A(std::accumulate(v.begin(), v.end(), 0)==1225,"acc");
    A(std::inner_product(v.begin(), v.end(), v.begin(), 0)>0,"ip"); std::vector<int> w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](int x){return x%2;}); A(w.size()==25,"cif");
    std::transform(w.begin(), w.end(), w.begin(), [](int x){return x*2;}); std::rotate(w.begin(), w.begin()+1, w.end()); w.erase(std::remove_if(w.begin(), w.end(), [](int x){return x>10;}), w.end());
    A(std::any_of(w.begin(), w.end(), [](int x){return x==2;}),"any"); A(std::count(w.begin(), w.end(), 2)==1,"cnt"); A(*std::max_element(w.begin(), w.end())==10,"max");
    std::vector<bool> vb(70,false); vb[3]=true; vb.push_back(true); A(vb[3]&&vb.size()==71,"vb"); std::vector<std::vector<double>> vv(3, std::vector<double>(2,1.)); vv.emplace_back(2); A(vv[3][1]==0,"vv");
    std::swap(vv[0],vv[1]); vv.insert(vv.begin()+1, vv[0]); vv.shrink_to_fit(); std::fill_n(v.begin(),3,7); A(std::find(v.begin(),v.end(),7)==v.begin(),"find"); v.assign(4,1); v.resize(6,2); A(v.back()==2,"rs");
    A(std::lower_bound(v.begin(), v.end(), 2)==v.begin()+4,"lb2"); auto mm=std::minmax_element(v.begin(),v.end()); A(*mm.second==2,"mm"); v.erase(std::unique(v.begin(), v.end()), v.end()); A(v.size()==2,"uniq"); std::partial_sum(v.begin(), v.end(), v.begin()); std::next_permutation(v.begin(), v.end());
}
static void t4() {
    std::string s="hello"; s+=" world"; s.append(3,'x'); s.insert(0,"> "); A(s.find("world")==8,"find"); A(s.substr(2,5)=="hello","sub"); s.replace(2,5,"HI"); s.erase(0,2); A(s.compare(0,2,"HI")==0,"cmp");
    A(std::to_string(42)=="42" && std::to_string((size_t)7)=="7","ts"); A(std::stoi("17")==17,"stoi"); A(s.rfind('x')==s.size()-1,"rf"); s.push_back('!'); s.pop_back(); A(s.back()=='x',"back"); A(s.find_first_of("xyz")!=std::string::npos,"ffo");
    std::ostringstream o; o<<"a"<<1<<' '<<(size_t)22; A(o.str()=="a1 22","oss"); std::string t; t.assign(s.begin(), s.end()); A(t==s && !(t<s),"eq"); std::stringstream ss("1 2 three"); int a,b; std::string c; ss>>a>>b>>c; A(a==1&&b==2&&c=="three","ss"); A(std::string(5,'a')+"b"=="aaaaab","pl");
    t.reserve(100); t.clear(); A(t.empty(),"em"); std::string line; std::stringstream s2("x\ny"); std::getline(s2,line); A(line=="x","gl");
    char buf[32]; snprintf(buf,32,"%03d.npy",7); A(std::string(buf)=="007.npy","snp"); A(strcmp(buf,"007.npy")==0&&memcmp(buf,"007",3)==0&&strlen(buf)==7,"cs");
}
struct B { virtual ~B() {} virtual int f() const =0; }; struct D : B, std::enable_shared_from_this<D> { int f() const override { return 4; } };
static void t5() {
    std::unique_ptr<B> p(new D); A(p->f()==4,"up"); std::shared_ptr<B> s=std::make_shared<D>(); std::weak_ptr<B> w=s; A(s.use_count()==1&&w.lock()->f()==4,"wp"); A(dynamic_cast<D*>(s.get())!=nullptr,"dc"); auto d=std::dynamic_pointer_cast<D>(s); A(d->shared_from_this()==s,"sft"); d.reset(); s.reset(); A(w.expired(),"ex");
    std::function<int(int)> f=[](int x){return x+1;}; auto g=std::bind(f,2); A(g()==3,"bind"); f=nullptr; A(!f,"fn"); try { f(1); A(false,"bfc"); } catch(const std::bad_function_call&) {}
    std::array<int,4> a{{1,2,3,4}}; A(a.at(2)==3,"arr"); try { a.at(9); A(false,"oor"); } catch(const std::out_of_range&) {} try { std::vector<int> v; v.at(0); A(false,"oor2"); } catch(const std::exception& e) { A(true,"x"); }
    auto t=std::make_tuple(1,2.0,std::string("x")); int i; std::tie(i,std::ignore,std::ignore)=t; A(i==1&&std::get<2>(t)=="x","tup"); std::pair<int,int> q=std::make_pair(1,2); A(q<std::make_pair(1,3),"pair");
    try { throw std::runtime_error("boom"); } catch (const std::exception &e) { A(std::string(e.what())=="boom","what"); }
    std::exception_ptr ep; try { throw std::invalid_argument("q"); } catch(...) { ep=std::current_exception(); } try { std::rethrow_exception(ep); } catch(const std::invalid_argument&e) { A(true,"ep"); }
    try { try { throw 3; } catch (...) { throw; } } catch (int k) { A(k==3,"re"); }
}
static int rec(int n) { static std::map<int,int> memo; if(n<2) return n; auto it=memo.find(n); if(it!=memo.end()) return it->second; return memo[n]=rec(n-1)+rec(n-2); }
static void t6() { A(rec(20)==6765,"memo"); static thread_local int tl=0; tl++; A(tl==1,"tls");
    auto t0=std::chrono::steady_clock::now(); auto t1=std::chrono::system_clock::now(); (void)t0;(void)t1; }
static void t7() {
    std::mutex m; std::condition_variable cv; int n=0; std::recursive_mutex rm; std::atomic<int> at(0); std::once_flag of;
    std::vector<std::thread> ts; for(int i=0;i<2;i++) ts.emplace_back([&]{ { std::lock_guard<std::mutex> l(m); n++; } { std::lock_guard<std::recursive_mutex> a(rm), b(rm); } at.fetch_add(1); at++; std::call_once(of,[&]{ at+=10; }); cv.notify_one(); });
    { std::unique_lock<std::mutex> l(m); cv.wait(l,[&]{return n==2;}); } for(auto&t:ts) t.join(); A(n==2&&at.load()==14,"thr");
    std::mutex a,b; std::lock(a,b); a.unlock(); b.unlock(); A(a.try_lock(),"tl"); a.unlock(); std::unique_lock<std::mutex> u(a,std::defer_lock); u.lock(); u.unlock(); int e=1; at.compare_exchange_strong(e,2); at.exchange(4);
    std::atomic_flag fl=ATOMIC_FLAG_INIT; A(!fl.test_and_set(),"fl"); fl.clear(); std::this_thread::yield(); A(std::this_thread::get_id()==std::this_thread::get_id(),"id");
}
static void t8() { auto f=std::async(std::launch::async,[]{return 5;}); A(f.get()==5,"async"); std::promise<int> p; auto g=p.get_future(); std::thread t([&]{p.set_value(3);}); A(g.get()==3,"prom"); t.join(); std::packaged_task<int()> pt([]{return 2;}); auto h=pt.get_future(); pt(); A(h.get()==2,"pt"); }
static void t9() { std::mutex m; std::condition_variable cv; bool r=false; std::thread t([&]{ std::lock_guard<std::mutex> l(m); r=true; cv.notify_all(); }); { std::unique_lock<std::mutex> l(m); while(!r) cv.wait_for(l,std::chrono::milliseconds(10)); } t.join(); A(r,"wf"); 
   std::timed_mutex tm; A(tm.try_lock_for(std::chrono::milliseconds(1)),"tm"); tm.unlock(); std::condition_variable_any ca; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
static void t10() {
    double x=vp_real("x",0.1,2); A(std::pow(x,2)==x*x,"pow2"); A(std::fabs(-x)==x,"fabs"); A(std::sqrt(x*x)==x||true,"sqrt"); double y=std::exp(std::log(x)); A(std::abs(y-x)<1e-6||true,"el"); A(std::max(x,3.)==3,"mx"); A(std::fmax(x,3.)==3,"fmx"); A(std::isfinite(x)&&!std::isnan(x)&&!std::isinf(x),"fin"); A(std::floor(2.5)==2&&std::ceil(2.5)==3&&std::round(2.5)==3&&std::trunc(2.7)==2,"flr"); A(std::hypot(3.,4.)==5||true,"hyp"); A(std::log1p(0.)==0&&std::expm1(0.)==0,"l1p"); A(std::lgamma(1.)==0,"lg"); A(std::numeric_limits<double>::infinity()>x,"inf"); A(std::signbit(-1.)&&std::copysign(1.,-x)==-1,"cs"); A(std::pow(x,0)==1,"p0"); A(std::fma(x,2.,1.)==2*x+1,"fma"); A(std::log2(8.)==3&&std::log10(100.)==2,"l2"); double ip; std::modf(2.5,&ip); A(ip==2,"modf"); A(std::fmod(5.,3.)==2,"fmod"); A(std::nearbyint(2.)==2 && std::lround(2.6)==3,"nbi"); std::pow(x, 0.5); std::tgamma(2.); A(std::tanh(0.)==0,"tanh"); A(std::ldexp(1.,3)==8,"ldexp"); std::exp2(x); std::cbrt(8.);
    float f=x; A(std::fabs(f)>0&&std::exp(f)>0,"fl"); expf(f); logf(f); powf(f,2.f); sqrtf(f); std::fmin(f,1.f);
}
static void t11() { using namespace Eigen; double x=vp_real("x",0.1,2); MatrixXd m(3,3); m.setConstant(x); m(1,1)=2; VectorXd v=m.rowwise().sum(); A(m.trace()==2*x+2,"tr"); ArrayXXd a=m.array().exp(); MatrixXd r=m.unaryExpr([](double q){return q*2;}); A(r(1,1)==4,"ue"); Map<VectorXd> mp(m.data(),9); A(mp.sum()==8*x+2,"map"); A((m*m.transpose()).rows()==3,"mul"); m.noalias()+=v*v.transpose(); std::vector<VectorXd> vs(3,v); m.col(0).swap(m.col(1)); m.topRows(2).setZero(); A(m.block(0,0,2,2).sum()==0,"blk"); VectorXd w=v.cwiseMax(0.5).cwiseInverse(); w.normalize(); VectorXi k=VectorXi::LinSpaced(4,0,3); A(k.sum()==6,"ls"); A(v.cast<float>().size()==3,"cast"); double mx=v.lpNorm<1>(); mx=v.lpNorm<Infinity>(); mx=v.norm(); mx=v.squaredNorm(); mx=m.cwiseAbs().maxCoeff(); MatrixXd e=m.replicate(1,2); e.conservativeResize(3,2); e.colwise().maxCoeff(); v.asDiagonal()*m; A((v.array()>0).all()&&v.allFinite()&&!v.hasNaN(),"af"); (m.array()>1).select(m,0.); v.dot(w); v.head(2)=v.tail(2).eval(); MatrixXd z=MatrixXd::Identity(3,3)+MatrixXd::Ones(3,3)+MatrixXd::Zero(3,3); v.reverseInPlace(); v.mean(); v.prod(); v.minCoeff(); RowVectorXd rv=v.transpose(); z.rowwise()-=rv; z.array().log(); z.array().square().sqrt(); z.array().pow(2); z.array().inverse(); z.redux([](double p,double q){return p+q;}); }
extern "C" void vp_main() {
    switch (PART) { case 0:t0();break; case 1:t1();break; case 2:t2();break; case 3:t3();break; case 4:t4();break; case 5:t5();break; case 6:t6();break; case 7:t7();break; case 8:t8();break; case 9:t9();break; case 10:t10();break; case 11: t11();break; }
}
