#!/usr/bin/env python3
# Writes MANIFEST.json: every property in IMPL is claimed, the rest is listed as not applicable (yet).
import json,subprocess
IMPL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20".split()
TECH={
 "C01":"explicit-state model checking of two real endpoints and their channels",
 "C02":"exhaustive enumeration of a bounded packet space on the real codec",
 "C03":"exhaustive enumeration of a bounded packet space against an independent codec",
 "C04":"exhaustive enumeration of bounded byte strings on the real parsers",
 "C05":"explicit-state model checking of the real connection against a hostile peer",
 "C09":"exhaustive enumeration of chunkings of bounded streams on the real connection",
 "C10":"explicit-state product exploration: reused vs fresh real object",
 "C11":"exhaustive role x version x state x kind matrix on the real connection",
 "C16":"crash-point enumeration: original vs restored real object (product exploration)",
 "C17":"exhaustive receive matrix and product exploration undetermined vs fixed version",
 "C18":"exhaustive property x location x multiplicity x value matrix on the real codec",
 "C20":"explicit-state model checking of the real allocator to a fixpoint",
}
DEF="explicit-state model checking of the real connection against a reference model"
SHARED="depth-bounded BFS over the property's alphabet in each configuration (state budget stated in the evidence) plus value sweeps"
NOTE={
 "C01":"fixpoint of every script listed in the evidence: all interleavings, all loss points; scripts bounded",
 "C02":"complete over the stated field domains and length boundaries",
 "C03":"complete over the stated field domains; six recorded findings",
 "C04":"complete over short strings and all single structured mutations of every packet shape",
 "C09":"all partitions of streams up to the stated length; 1-3 cuts on longer ones",
 "C13":SHARED+"; alias tables alone to a stated sequence length",
 "C18":"complete matrix of single properties, ordered pairs and triples",
 **{p:SHARED for p in "C05 C06 C07 C08 C12 C14 C15 C19".split()},
 "C20":"fixpoint over small ranges and boundary values; larger ranges bounded-exhaustive",
}
DEFN="bounded-exhaustive: every behaviour of the real code over the stated alphabet up to the stated depth"
checks=[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json",
 "technique":TECH.get(p,DEF),"level":"model_checking","level_note":NOTE.get(p,DEFN)} for p in IMPL]
na=[{"property":f"C{i:02d}","reason":"check under construction in this commit"} for i in range(1,21) if f"C{i:02d}" not in IMPL]
hook=subprocess.run("git -C /repo log --format=%h --grep=^verif:",shell=True,capture_output=True,text=True).stdout.split()
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"cfg(mqtt_verif)","enable":"RUSTFLAGS='--cfg mqtt_verif' (set by build.sh); it only adds derive(Clone, Debug) to connection-internal types","source_commits":hook},
 "checks":checks,"not_applicable":na,"notes":"One binary (mc) rebuilt from /repo's working tree by every check; see DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")

# DESIGN.md: table of planted bugs
import glob,os,re
rows=["| bug | property | needs | what it breaks | caught by |","|---|---|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d=json.load(open(f)); b=os.path.basename(os.path.dirname(f))
    rows.append(f"| {b} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {d.get('caught_by', d['property'])} |")
p="/verif/DESIGN.md"; s=open(p).read()
s=re.sub(r"<!-- seeds -->.*?<!-- /seeds -->",lambda m:"<!-- seeds -->\n"+"\n".join(rows)+"\n<!-- /seeds -->",s,flags=re.S)
open(p,"w").write(s)
