import subprocess,json
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
m={"after the GF(2) solver fixes":"C08","tightening penalty":"C20","GF(2) solver takes":"C02","classifying flow":"C14","booleans in a JSON":"C12","JSON arrays holding":"C12","text in quotations":"C12","quotation marks and":"C12","assigned expressions keep":"C13","keeps its constant term":"C13","write infinite bounds":"C11","write the constant term":"C11","declare variables without":"C11","write MPS files with":"C11","MPS file":"C10","averaged speeds":"C21","presolve fixes a variable without":"C02","singleton equality":"C02","online bounding":"C02","tabu search compares the incumbent":"C05","verifier":"C01","local search does not combine":"C04","set covering":"C02","removing set constraints":"C02","fixed term value":"C02","constraint properties are updated":"C02","sparse matrix":"C16","LP instance":"C09","coincident bounds":"C01","Lagrangian of maximization":"C09","before concluding optimality":"C09","tightens bounds with tolerance":"C02","selections follow":"C08","dependent variables are extracted":"C02","constant ratio moves":"C08","constant sum and difference":"C08","trinomial":"C08","deduplicate related":"C03"}
out=[]
for l in log:
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        p=[v for k,v in m.items() if k in s]
        out.append(f"fixed: property={p[0] if p else 'C??'} {h} {s[5:]}")
old={}
try: old=json.load(open('/verif/known_findings.json'))
except Exception: pass
json.dump({"findings":old.get("findings",[]),"fixed":out},open('/verif/known_findings.json','w'),indent=1)
print("\n".join(out))
