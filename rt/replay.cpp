// Native replay of a counterexample: ./replay file
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
static std::map<std::string,std::vector<long long>> *vals;
static std::map<std::string,size_t> *pos;
static bool next(const char*n,long long&v){
    auto it=vals->find(n); if(it==vals->end()) return false;
    size_t &p=(*pos)[n]; if(p>=it->second.size()) return false;
    v=it->second[p++]; return true;
}
extern "C" {
int64_t sym_int(const char*n,int64_t lo,int64_t hi){ long long v; if(!next(n,v)){ return lo; } if(v<lo||v>hi){ printf("REPLAY-RANGE %s\n",n); fflush(stdout); _Exit(3);} return v; }
uint64_t sym_u64(const char*n){ long long v; if(!next(n,v)) return 0; return (uint64_t)v; }
void sym_assume(bool c){ if(!c){ printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(3);} }
void sym_check(bool c,const char*id){ if(!c){ printf("CHECK-FAILED %s\n",id); fflush(stdout); _Exit(1);} }
void sym_fail(const char*id){ printf("CHECK-FAILED %s\n",id); fflush(stdout); _Exit(1); }
void sym_reach(const char*){}
void sym_done(){ printf("REPLAY-PASS\n"); fflush(stdout); exit(0); }
uint64_t sym_concretize(uint64_t v){ return v; }
bool sym_branch(bool c){ return c; }
int sym_is_symbolic(){ return 0; }
}
#include <unistd.h>
#include <sys/wait.h>
static int one(const char*fn){
    vals=new std::map<std::string,std::vector<long long>>; pos=new std::map<std::string,size_t>;
    FILE*f=fopen(fn,"r"); if(!f) return 4;
    char line[1<<14]; while(fgets(line,sizeof line,f)){ if(line[0]=='#') continue; char n[256]; long long v; if(sscanf(line,"%255s %lld",n,&v)==2) (*vals)[n].push_back(v); }
    fclose(f);
    harness();
    printf("REPLAY-PASS\n"); fflush(stdout);
    return 0;
}
int main(int argc,char**argv){
    if(argc<=2) return argc<2?4:one(argv[1]);
    for(int i=1;i<argc;i++){ pid_t p=fork(); if(p==0){ alarm(20); _exit(one(argv[i])); } int st; waitpid(p,&st,0); }
    return 0;
}
