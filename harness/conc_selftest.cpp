#include "conc.hpp"
#include <thread>
#include <mutex>
#include <queue>
#include <atomic>
#include <memory>
static void program(mc::MC& m){
  int which = m.choose(6,"which");
  const char* w=getenv("WHICH"); if(w && atoi(w)!=which) return;
  conc::run(m,2,[&]{
    struct S{ std::mutex a,b; std::queue<std::shared_ptr<int>> q; std::atomic<bool> stop{false}; bool flag=false; int got=0; int x=0;};
    auto s=std::make_shared<S>();
    if(which==0){ // correct producer / spinning consumer
      std::thread c([s]{ while(true){ bool st=s->stop; std::lock_guard<std::mutex> l(s->a); if(s->q.empty()){ if(st) break; continue;} s->got+=*s->q.front(); s->q.pop(); }});
      for(int i=1;i<=3;i++){ std::lock_guard<std::mutex> l(s->a); s->q.push(std::make_shared<int>(i)); conc::progress(); }
      s->stop=true; c.join();
      conc::check(m, s->got==6,"sum","got "+std::to_string(s->got));
    } else if(which==1){ // race
      std::thread c([s]{ s->x++; }); s->x++; c.join();
    } else if(which==2){ // deadlock AB BA
      std::thread c([s]{ s->a.lock(); s->b.lock(); s->b.unlock(); s->a.unlock(); });
      s->b.lock(); s->a.lock(); s->a.unlock(); s->b.unlock(); c.join();
    } else if(which==3){ // lost update (atomicity)
      auto f=[s]{ int v; {std::lock_guard<std::mutex> l(s->a); v=s->x;} {std::lock_guard<std::mutex> l(s->a); s->x=v+1;} };
      std::thread c(f); f(); c.join(); conc::check(m,s->x==2,"lost","lost update");
    } else if(which==4){ // livelock
      std::thread c([s]{ while(!s->stop){} }); c.join();
    } else { // plain flag
      std::thread c([s]{ for(int i=0;i<1000;i++) if(s->flag) break; }); s->flag=true; c.join();
    }
  });
  m.validated();
}
static mc::Options options(){ mc::Options o; o.program=program; o.split_depth=1; o.what="x"; o.bounds="y"; return o;}
MC_MAIN(options)
