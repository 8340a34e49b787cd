#!/usr/bin/env python3
"""mutate.py N SEED [file-substring]: random one-token mutants of /repo's headers in a scratch clone; a mutant that compiles is
given to the checks responsible for its file; survivors are then given to the test suite. Log: /tmp/mut.log"""
import sys, os, random, re, subprocess, shutil, time
R="/tmp/mut/repo"; H="include/boost/random/"; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
ENG="linear_congruential additive_combine inversive_congruential linear_feedback_shift xor_combine mersenne_twister lagged_fibonacci subtract_with_carry mixmax splitmix64 discard_block shuffle_order independent_bits".split()
DIST="bernoulli_distribution beta_distribution binomial_distribution cauchy_distribution chi_squared_distribution discrete_distribution exponential_distribution extreme_value_distribution fisher_f_distribution gamma_distribution geometric_distribution hyperexponential_distribution laplace_distribution lognormal_distribution negative_binomial_distribution non_central_chi_squared_distribution normal_distribution piecewise_constant_distribution piecewise_linear_distribution poisson_distribution student_t_distribution triangle_distribution uniform_01 uniform_int_distribution uniform_on_sphere uniform_real_distribution uniform_smallint weibull_distribution".split()
FILES={}
for e in ENG: FILES[H+e+".hpp"]=["P02","P01","P03","P04","P06","P05"]
for e in ("discard_block","shuffle_order","independent_bits","xor_combine","additive_combine"): FILES[H+e+".hpp"]=["P02","P14","P01","P03","P04","P06","P05"]
for d in DIST: FILES[H+d+".hpp"]=["P15","P08","P10","P09","P05"]
for q in ("sobol","faure","niederreiter_base2","detail/qrng_base","detail/gray_coded_qrng"): FILES[H+q+".hpp"]=["P13","P11"]
for q in ("seed_seq","detail/seed_impl"): FILES[H+q+".hpp"]=["P06","P02","P14"]
FILES[H+"detail/const_mod.hpp"]=FILES[H+"detail/large_arithmetic.hpp"]=["P02","P03"]; FILES[H+"detail/polynomial.hpp"]=["P03"]
for q in ("generate_canonical","random_number_generator","variate_generator"): FILES[H+q+".hpp"]=["P14"]
for q in ("detail/uniform_int_float","detail/int_float_pair"): FILES[H+q+".hpp"]=["P15","P09","P08","P14"]
FILES[H+"detail/vector_io.hpp"]=["P10","P05"]; FILES["src/random_device.cpp"]=["P07"]
OPS=[(r"(?<![<>=!-])<(?![<=])(?=\s)","<="),(r"<=","<"),(r"(?<![->=])>(?![>=])(?=\s\w)",">="),(r">=",">"),(r"==","!="),(r"!=","=="),(r"&&","||"),(r"\|\|","&&"),(r"\+ ?1\b",""),(r"- ?1\b",""),(r"\+\+","--"),(r" \+ "," - "),(r" - "," + "),(r" \* "," / "),(r" / "," * "),(r"\b0\b","1"),(r"\b1\b","2"),(r"\b2\b","3"),(r"\b0\.5\b","0.25"),(r" % "," / "),(r" << "," >> "),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r" \^ "," | "),(r" & "," | "),(r"\+=","-="),(r"\*=","+="),("DEL","")]
def code_lines(f):
    out=[]; com=False; pp=False; dox=0
    for n,l in enumerate(open(f).read().split("\n")):
        s=l.strip()
        if dox: # documentation-only code
            dox+=s.startswith("#if"); dox-=s.startswith("#endif")
            if dox==1 and s.startswith("#else"): dox=0
            continue
        if re.match(r"#\s*if.*(DOXYGEN|MSVC|_MSC_VER|__BORLAND|WINDOWS)",s) and "ifndef" not in s and "!" not in s: dox=1; continue
        if com:
            if "*/" in s: com=False
            continue
        if s.startswith("/*"):
            if "*/" not in s: com=True
            continue
        if pp: pp=s.endswith("\\"); continue
        if s.startswith("#"): pp=s.endswith("\\"); continue
        if not s or s.startswith("//") or "STATIC_ASSERT" in s or "BOOST_ASSERT" in s or s.startswith(("typedef","template","using","namespace","friend","class","struct")): continue
        if re.fullmatch(r"[-0-9.e+,\sLUulxa-fA-F{}]*",s): continue
        out.append(n)
    return out
def main():
    N=int(sys.argv[1]); rng=random.Random(int(sys.argv[2])); sub=sys.argv[3] if len(sys.argv)>3 else ""
    if not os.path.exists(R): sh("mkdir -p /tmp/mut && git clone -q /repo %s"%R)
    sh("cd %s && git checkout -q -- . && git pull -q"%R); log=open("/tmp/mut.log","a")
    files=[f for f in FILES if sub in f]; done=0
    while done<N:
        f=rng.choice(files); p=os.path.join(R,f); ls=open(p).read().split("\n"); n=rng.choice(code_lines(p)); l=ls[n]; body=l.split("//")[0]
        rx,to=rng.choice(OPS)
        if rx=="DEL":
            if not body.strip().endswith(";") or re.match(r"\s*(return|\w+[\w:<>, ]*\s+\w+\s*(;|=))",body): continue
            new=""
        else:
            ms=list(re.finditer(rx,body))
            if not ms: continue
            m=rng.choice(ms); new=body[:m.start()]+to+body[m.end():]
        if new==l: continue
        ls[n]=new; open(p,"w").write("\n".join(ls)); t0=time.time()
        desc="%s:%d [%s] -> [%s]"%(f,n+1,l.strip(),new.strip()); caught=None; comp=True
        r=sh("g++ -std=c++17 -fsyntax-only -w -I %s/include -x c++ -"%R,input="#include <boost/random.hpp>\n#include <boost/random/sobol.hpp>\n#include <boost/random/faure.hpp>\n#include <boost/random/niederreiter_base2.hpp>\n#include <boost/random/hyperexponential_distribution.hpp>\n")
        if r.returncode: comp=False
        if comp:
            for c in FILES[f]:
                r=sh("SIM_SECS=%d VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=%s VERIF_BUILD=/tmp/mut/build python3 run.py %s"%(60 if c=="P15" else 15,R,c),cwd=V)
                if r.returncode==1 and "VIOLATION" in r.stdout:
                    v=[x for x in r.stdout.splitlines() if x.startswith("violation in")] or r.stdout.splitlines()[-1:]; caught=c+" "+v[0][:150]; break
                if r.returncode not in (0,1) or (r.returncode==1): 
                    if "error" in r.stdout+r.stderr: comp=False
                    else: caught=c+" rc %d"%r.returncode
                    break
        if comp:
            done+=1; tests=""
            if not caught:
                t=sh("cd /tmp/pl/repo && git checkout -q -- . && cp %s /tmp/pl/repo/%s && bash /tmp/pl/opt/test.sh /tmp/pl/t.json; git checkout -q -- ."%(p,f)); tests="TESTS PASS" if "727 passed, 1 failed" in t.stdout else "tests fail"
            log.write("%s | %s | %s | %ds\n"%(desc,caught or "SURVIVED",tests,time.time()-t0)); log.flush()
        sh("cd %s && git checkout -q -- ."%R)
main()
