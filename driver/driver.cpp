#include "terms.h"
#include <sys/wait.h>
#include <unistd.h>
#include <string.h>
#include <signal.h>
#include <sys/resource.h>
struct Out { bool fail; bool ran; std::string cls,msg; };
static Out ok(bool ran=true){ Out o; o.fail=false; o.ran=ran; return o; }
static Out bad(std::string c,std::string m){ Out o; o.fail=true; o.ran=true; o.cls=c; o.msg=m; return o; }
static std::string catchmsg(){ try{ throw; } catch(Symbolics::Exception&e){ return e.what(); } catch(std::exception&e){ return e.what(); } catch(...){ return "unknown exception"; } }
static std::string rstr(BasicPtr const&p){ try { return p.get()? p->toString():"NULL"; } catch(...) { return "<toString threw "+catchmsg()+">"; } }
#include "modes.h"
typedef Out (*Mode)(uint64_t);
struct ME { const char*n; Mode f; };
static ME modes[]={ {"build",m_build},{"simp",m_simp},{"der",m_der},{"pder",m_pder},{"jac",m_jac},{"subs",m_subs},{"eq",m_eq},{"shape",m_shape},{"matrix",m_matrix},{"print",m_print}, {0,0} };
int main(int argc,char**argv){
  // driver MODE START COUNT [maxfail]  |  driver MODE SEED
  // driver term MODE START COUNT TERM [TERM2 | symbol]
  if(argc>=6 && !strcmp(argv[1],"term")){ try{ FIXED=parseTerm(argv[5]); if(argc>6){ if(argv[6][0]=='(') FIXED2=parseTerm(argv[6]); else FIXSYM=argv[6]; } } catch(std::exception&x){ fprintf(stderr,"bad term %s\n",x.what()); return 2; } argv[1]=argv[2]; argv[2]=argv[3]; argv[3]=argv[4]; argc=4; }
  if(argc<3){ fprintf(stderr,"usage\n"); return 2; }
  Mode f=0; for(ME*m=modes;m->n;m++) if(!strcmp(m->n,argv[1])) f=m->f; if(!f){ fprintf(stderr,"no mode\n"); return 2; }
  uint64_t s=strtoull(argv[2],0,10); uint64_t n= argc>3? strtoull(argv[3],0,10):1; int maxf= argc>4?atoi(argv[4]):20;
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); struct rlimit as={4ul<<30,4ul<<30}; setrlimit(RLIMIT_AS,&as);
  uint64_t done=0,ran=0; int fails=0; uint64_t cur=s,end=s+n;
  while(cur<end && fails<maxf){
    int pf[2]; if(pipe(pf)) return 2; fflush(stdout);
    pid_t c=fork();
    if(c==0){ close(pf[0]); struct rlimit st={256ul<<20,256ul<<20}; setrlimit(RLIMIT_STACK,&st);
      FILE*o=fdopen(pf[1],"w"); uint64_t b=cur; int lf=0;
      for(;b<end&&b<cur+2000;b++){ fprintf(o,"B %llu\n",(unsigned long long)b); fflush(o); alarm(20); Out r; try{ r=f(b);} catch(std::bad_alloc&){ r=ok(false);} catch(...){ r=bad("exception","harness: "+catchmsg()); } alarm(0);
        for(auto&ch:r.msg) if(ch=='\n') ch=' ';
        if(r.fail){ fprintf(o,"F %llu %s | %s\n",(unsigned long long)b,r.cls.c_str(),r.msg.c_str()); lf++; if(lf+fails>=maxf){ b++; break; } } else if(r.ran) fprintf(o,"R\n"); }
      fprintf(o,"E %llu\n",(unsigned long long)b); fclose(o); _exit(0); }
    close(pf[1]); FILE*in=fdopen(pf[0],"r"); char*line=0; size_t cap=0; uint64_t last=cur; bool e=false;
    while(getline(&line,&cap,in)>0){ if(line[0]=='B'){ last=strtoull(line+2,0,10); done++; } else if(line[0]=='R') ran++; else if(line[0]=='F'){ printf("FAIL %s %s",argv[1],line+2); fails++; ran++; } else if(line[0]=='E'){ last=strtoull(line+2,0,10); e=true; } }
    free(line); fclose(in); int st; waitpid(c,&st,0);
    if(e) cur=last; else if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM){ printf("SLOW %s %llu\n",argv[1],(unsigned long long)last); cur=last+1; } else { fails++; printf("FAIL %s %llu crash | process ended abnormally (status %d)\n",argv[1],(unsigned long long)last,st); cur=last+1; } }
  printf("DONE mode=%s cases=%llu compared=%llu fails=%d\n",argv[1],(unsigned long long)done,(unsigned long long)ran,fails);
  return fails?1:0; }
