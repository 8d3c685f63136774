import json,os,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
"C13":"Pure function of its inputs: evaluating a sum/product/power construction involves no schedule, time, I/O, fault or history, so seeded simulation of schedules and faults has nothing to decide; the part that does depend on history (shared operands, derived constraints in solved layouts) is decided under C04 and C11.",
"C14":"Pure function of its inputs (residual formulas on arbitrary, also degenerate, primitives): no concurrency, time, I/O or history is involved. Non-degenerate values are still compared with the independent reference model inside C01, C04 and C11 runs.",
"C15":"Pure data-structure round trip without concurrency, time, I/O or faults; what users observe of it (solved primitives keep keys, types, order and sharing) is decided under C05.",
"C17":"A numerical-analysis statement about the convergence region of Newton's method for every starting point and precision: it depends on no schedule, time, I/O or fault, and it is not guaranteed by the package (no globalisation).",
"C18":"Pure input validation of constructors without concurrency, time, I/O or faults; rejected additions to a layout are decided under C01.",
}
NOTE={
"C01":"Seeded histories of valid, invalid and aborted additions by 1-3 interleaved actors against a list model of each layout; failures injected in user hooks and matplotlib calls.",
"C02":"Histories of solves by 1-3 actors with failing linear algebra, compiled kernels and user code, interrupts at any executed line and a line-level scheduler; deep snapshots of layouts and process state around every call.",
"C03":"Every undisturbed solve in a seeded history (other layouts, failures, garbage collection with simulated address reuse, concurrent solves) is compared with a fresh process.",
"C04":"Solved random layouts (consistent by construction) are checked against an independent numpy reference of every constraint type; faults and concurrency around the solves.",
"C05":"Solutions are compared with their layout (keys, types, order, sharing, dtype) and resumed through further solves, with faults and interrupts on the way; a reference Newton decides whether the resumed run must converge.",
"C06":"Random layouts and histories of subplots/update_subplots/user edits; reference placement from the primitives; faults in every matplotlib call followed by a retry.",
"C07":"The same engine as C06, judging what a failed call leaves in pyplot, in rcParams and in figures it was not given.",
"C08":"Three figures share one history: one measured (with failures), one never measured, one without axis labels; state and pixels are compared.",
"C09":"Chains of refreshes and further additions on both layouts, with faults and concurrent actors, against list models and independently measured thicknesses.",
"C10":"Complete measure-solve-update loops over user figures with user edits, faults and interrupts; after a calm round the figure, the layout and the measurement must agree.",
"C11":"Constraint and construction objects shared between layouts, derivations and threads, against fresh objects and the reference model; failures and interrupts in evaluations.",
"C12":"Histories of plots by 1-3 actors with failing matplotlib calls and colour maps; artists are compared with coordinates read from the primitives.",
}
done=sys.argv[1:]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in NA: na.append({"property":i,"reason":NA[i]})
    elif i in done:
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection (seeded scheduler, seams, reference models)","level":"exploration","level_note":NOTE.get(i,p["title"])})
    else: na.append({"property":i,"reason":"check under construction"})
json.dump({"version":1,"setup_cmd":"bash ./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: every seam is installed from outside (dst/world.py) before the package is imported. Replays: ./replay FILE."},open('/verif/MANIFEST.json','w'),indent=1)
