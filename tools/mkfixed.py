import json,subprocess
m={}
def a(pid,*keys):
    for k in keys: m[k]=pid
a("C03","SequenceList.append keeps","SequenceList.concat keeps","a label is never 'in'")
a("C02","popping (and fusing) a top","re-setting tier precedence","fusing intervals re-links","popping the top class re-links")
a("C01","setting a new super_instance","set_subset_list releases","set_subset_list takes over","append_subset_list and set_super")
a("C11","groups of an interleaved class","default TierGroups","points appended or concatenated","PointsGroup.concat works","appending to the topmost")
a("C04","get_tierwise does not wrap","nested iteration","PointsGroup.xmax","xmin and xmax of groups")
a("C16","fol_distance and","copying a SequencePointTier","an empty point tier has")
a("C15","get_interval_at_point")
a("C22","classes may have names","custom_classes returns","get_class_hierarchy starts")
a("C17","to_df of an interval that is in no tier","to_df accepts","to_df leaves out")
a("C23","a group keeps its name and acc","named accessors do not","a PointsGroup keeps its name","named group accessors","tier_names of a textgrid")
a("C06","a textgrid may hold tiers","entry_classes may be","a flat list that repeats")
a("C07","return_textgrid gives","save_as_tg passes","a textgrid with an empty tier")
a("C12","interleave_class works with a tier that has no","pop_class releases the intervals","popping a class held by","popping the last remaining","tiers of groups interleave_class")
a("C14","tiers of a group that lacks")
a("C08","cleanup never adds","SequenceTier.cleanup relates","intervals that close gaps","AlignedTextGrid.cleanup accepts","AlignedTextGrid.cleanup leaves","AlignedTextGrid.cleanup adds","AlignedTextGrid.cleanup relates","gap closing compares","TierGroup.cleanup does not","TierGroup.cleanup projects","TierGroup.cleanup fills","cleanup and validate compare","differences below 10","cleanup after popping")
a("C05","an interval outside every","a lower tier stays in time order")
a("C10","tiers with integer times")
a("C09","a label function that raises")
a("C01","an equal interval leaves")
a("C03","adding to a SequenceList")
a("C23","tiers keep their names when","a removed group is not")
a("C20","a refused SequenceList.concat","TierGroup refuses","a tier refused by","interleave_class refuses timing")
a("C19","a '?' on a turning","a PolarGrid whose","PoLaR levels and turning points coincide")
out=[]
for l in subprocess.check_output("git -C /repo log --reverse --format=%h\\ %s 3f5623a..",shell=True,text=True).splitlines():
    h,msg=l.split(" ",1); msg=msg[len("fix: "):]
    k=[v for q,v in m.items() if msg.startswith(q)]
    assert len(k)==1,(l,k)
    out.append(f"fixed: property={k[0]} {h} {msg} (failed before)")
K='known_findings.json'
d=json.load(open(K)); d["fixed"]=out
json.dump(d,open(K,'w'),indent=1); open(K,'a').write("\n")
print(len(out))
