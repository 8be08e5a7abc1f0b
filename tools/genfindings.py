#!/usr/bin/env python3
# prints known-findings.json: the known finding, and the repairs recorded from /repo's "fix:" commits
import json,subprocess
PROPS={"ac102ca":"C04","2361588":"C01","02f81b4":"C01","41eb63e":"C11","55ae4a4":"C03","40d6185":"C03","f4b4371":"C06","96a9ec6":"C05","5aa75d9":"C02","d8dcdb4":"C14","044e613":"C14","cfd76ca":"C19","d945527":"C17","c2ad56c":"C17","e6cd1d7":"C17","441e953":"C16","4024d68":"C20","fda16dd":"C20","75e47bc":"C21","4766e30":"C21","0543319":"C22","55fd0fa":"C21","701c401":"C24","787ef88":"C24","6ce97da":"C25","5ca161d":"C12","dc6c28f":"C11","0b337d4":"C14","358a2ec":"C24","b336c56":"C26","d4fcbe7":"C24"}
extra={"refuse utxo rows with an overlong":"C22","refuse utxos from blockfrost with an overlong":"C24","report a redirected blockfrost submission":"C25","balance the transaction when what is left":"C16","refuse to serialize inputs":"C12","close the file of a transaction whose":"C30"}
f=[{"property":"C01","status":"known","key":"byron-testnet-refused","what":"well-formed Byron testnet addresses (attribute 2 holding the network magic) are refused"}]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    p=PROPS.get(h) or next((v for k,v in extra.items() if k in s),None)
    assert p,l
    f.append({"property":p,"status":f"fixed: property={p} {h} {s[5:]}"})
print("{\"findings\":[\n "+",\n ".join(json.dumps(x) for x in f)+"\n]}")
