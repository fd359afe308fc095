import json,os,shutil,subprocess,sys,tempfile
from concurrent.futures import ThreadPoolExecutor
O={"_univariate_linear_model_analysis.py":"C19 C26 C23 C22 C10 C12 C13 C15","_pli.py":"C20 C10 C12 C13","_pli_pod.py":"C20 C10 C12 C13","_sobol_indices.py":"C21 C10 C12 C13 C25",
"_pod_summary.py":"C10 C15 C17 C12","_adaptive_hitmiss_pod.py":"C10 C18 C05 C01 C07 C06 C17 C12 C13","_adaptive_signal_pod.py":"C10 C18 C05 C01 C07 C02 C06 C17 C12 C13",
"_kriging_tools.py":"C24 C22 C05 C10 C01 C07 C06 C18 C12 C13 C25","_kriging_pod.py":"C24 C22 C05 C10 C01 C07 C06 C25 C17 C12","_polynomial_chaos_pod.py":"C24 C22 C05 C10 C01 C07 C06 C25 C17 C12",
"_pod.py":"C04 C02 C05 C07 C10 C16 C17 C12 C03","_univariate_linear_model_pod.py":"C05 C01 C16 C23 C22 C04 C02 C03 C07 C10 C25 C12 C17",
"_math_tools.py":"C23 C26 C22 C02 C04 C20 C07 C05 C16 C12","_quantile_regression_pod.py":"C05 C01 C16 C22 C07 C10 C02 C04 C25 C12 C17"}
L=json.load(open('/tmp/amut/list.json')); V=sys.argv[1]; W=int(sys.argv[2])
extra=sys.argv[4].split() if len(sys.argv)>4 else None
out=open(sys.argv[3],'a')
def one(i):
    m=L[i]; d=tempfile.mkdtemp(prefix="amut.")
    try:
        shutil.copytree("/repo/otpod",d+"/otpod",ignore=shutil.ignore_patterns("__pycache__"))
        p=d+"/otpod/"+m["file"]; s=open(p,'rb').read(); s=s[:m["a"]]+m["new"].encode()+s[m["c"]:]; open(p,'wb').write(s)
        try: compile(s,p,'exec')
        except SyntaxError: return i,"syntax",""
        notes=[]
        for q in (extra or O[m["file"]].split()):
            r=subprocess.run(["timeout","500","python3",V+"/run.py","--property",q],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d,VERIF_EVIDENCE=d+"/ev"))
            if r.returncode==1 and "VIOLATION" in r.stdout: return i,"caught "+q,""
            last=r.stdout.strip().split("\n")[-1]
            if r.returncode!=0: notes.append(q+" rc%d"%r.returncode+r.stderr[-80:])
            elif " 0 undecided" not in last: notes.append(q+" und")
        return i,"SURVIVED"," ".join(notes)
    finally: shutil.rmtree(d)
idx=[int(x) for x in os.environ["IDX"].split()] if "IDX" in os.environ else range(len(L))
with ThreadPoolExecutor(W) as ex:
    for i,r,n in ex.map(one,idx):
        m=L[i]; out.write("%d|%s|%s|%s:%d|%s|%s -> %s\n"%(i,r,n,m["file"],m["line"],m["kind"],m["old"].replace("\n"," ")[:90],m["new"].replace("\n"," ")[:60])); out.flush()
