#include "core.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <future>
#include <fstream>
#include <filesystem>
#include <condition_variable>
using namespace sim;
static void ok_run(){ draw_heap(); auto c=draw_sched(false,false); c.hw=4; std::mutex m; int x=0; std::atomic<int> a{0};
 with_sched(c,[&]{ std::vector<std::thread> t; for(int i=0;i<4;++i) t.emplace_back([&]{ for(int k=0;k<5;++k){ std::lock_guard l{m}; ++x; ++a; } }); for(auto&q:t) q.join();
  auto f=std::async(std::launch::async,[&]{return x;}); if(f.get()!=20) violation("bad","x=%d",x); });
 auto p = std::make_shared<int>(3); nontrivial(); }
static void race_run(){ auto c=draw_sched(false,false); int x=0; std::mutex m;
 with_sched(c,[&]{ std::vector<std::thread> t; for(int i=0;i<2;++i) t.emplace_back([&]{ for(int k=0;k<5;++k){ if(k!=3) {std::lock_guard l{m}; ++x;} else ++x; } }); for(auto&q:t) q.join(); }); nontrivial(); }
static void lost_run(){ auto c=draw_sched(false,false); c.races=false; std::atomic<int> x=0;
 with_sched(c,[&]{ std::vector<std::thread> t; for(int i=0;i<3;++i) t.emplace_back([&]{ for(int k=0;k<5;++k){ int v=x.load(); x.store(v+1);} }); for(auto&q:t) q.join(); if(x!=15) violation("lost","x=%d",x.load()); }); nontrivial(); }
static void dl_run(){ auto c=draw_sched(false,false); std::mutex a,b;
 with_sched(c,[&]{ std::thread t1{[&]{std::lock_guard l{a}; std::lock_guard k{b};}}, t2{[&]{std::lock_guard l{b}; std::lock_guard k{a};}}; t1.join(); t2.join(); }); nontrivial(); }
static void fs_run(){ disk::put("/simfs/a/b.txt","hello world\nline2\n"); disk::put("/simfs/a/c.txt","x");
 disk::Cfg c; c.read_err=choose(8); c.write_enospc=choose(8); c.read_short=choose(32); c.write_short=choose(32); c.dir_order=true; c.close_err=choose(8); disk::arm(c);
 std::ifstream in("/simfs/a/b.txt"); std::string l, all; while(std::getline(in,l)) all+=l+"|"; 
 if(!in.bad() && all!="hello world|line2|") violation("ifs","got %s",all.c_str());
 { std::ofstream o("/simfs/a/out"); for(int i=0;i<3000;++i) o<<"abcdefghij"; o.close(); std::string s; disk::get("/simfs/a/out",s); if(o && s.size()!=30000) violation("ofs","size %zu",s.size()); }
 int n=0; for(auto const&e: std::filesystem::directory_iterator("/simfs/a")) {++n; event(hash_str(e.path().string()));} if(n!=3) violation("dir","%d",n);
 if(std::filesystem::file_size("/simfs/a/b.txt")!=18) violation("sz","");
 FILE*f=fopen("/simfs/a/b.txt","rb"); if(!f) violation("fo",""); fseek(f,0,SEEK_END); if(ftell(f)!=18) violation("tell",""); fclose(f);
 nontrivial(); }
static void uaf_run(){ int*p=new int[4]; p[1]=2; int* volatile q=p; delete[] p; if(choose(4)==3) { if(q[1]==5) note("x"); } nontrivial(); }
static void oob_run(){ std::vector<int> v(5); unsigned i=choose(7); int* volatile q=v.data(); q[i]=3; nontrivial(); }
static void crash_run(){ disk::crash_at(choose(6)); auto e=incarnation([]{ std::ofstream o("/simfs/x"); o<<std::string(20000,'a'); o.close(); return std::string("done");}); std::string s; bool have=disk::get("/simfs/x",s); note("exit %d out %s size %zu",e.kind,e.out.c_str(),s.size()); if(e.kind==Exit::CRASHED && have && s.size()!=0 && s.size()!=20000) violation("torn","size %zu",s.size()); nontrivial(); }
static void cv_run(){ auto c=draw_sched(false,false); with_sched(c,[&]{ std::mutex m; std::condition_variable cv; bool rdy=false; std::thread t{[&]{ std::unique_lock l{m}; cv.wait(l,[&]{return rdy;}); }}; { std::lock_guard l{m}; rdy=true;} cv.notify_one(); t.join(); }); nontrivial(); }
static void leak_run(){ auto m=heap_mark(); int* volatile p=new int[10]; { std::vector<int> v(100); (void)v; } auto l=live_since(m); if(l.count!=1||l.bytes!=40) violation("leak","%lu %lu",l.count,l.bytes); delete[] p; if(live_since(m).count) violation("leak2",""); arm_alloc_fail(1+choose(3)); try { std::vector<int> a(10),b(10),c(10); arm_alloc_fail(0); violation("noalloc",""); } catch(std::bad_alloc&){} nontrivial(); }
static Reg r1{"T1","ok",nullptr,ok_run}, r2{"T2","race",nullptr,race_run}, r3{"T3","lost",nullptr,lost_run}, r4{"T4","dl",nullptr,dl_run}, r5{"T5","fs",nullptr,fs_run}, r6{"T6","uaf",nullptr,uaf_run}, r7{"T7","oob",nullptr,oob_run}, r8{"T8","crash",nullptr,crash_run}, r9{"T9","cv",nullptr,cv_run}, r10{"T10","leak",nullptr,leak_run};
