import json,subprocess
log=subprocess.check_output("git -C /repo log --oneline",shell=True,text=True).splitlines()
m={"b769d4c":"C06","1c8458c":"C25","fb7e938":"C25","709a218":"C15","34e8704":"C07","17ad0fc":"C17","6ec5318":"C13","dfb7431":"C08","1adb2b7":"C20","f546922":"C08","ef4d19c":"C08","09b3ca6":"C03","1826005":"C03","2afd0a9":"C16","317caed":"C18","6828325":"C18","0156780":"C18","cbbe280":"C21","e23d3f2":"C10","582009d":"C11","d54e76c":"C21","be65db1":"C13","80f5914":"C10","394695e":"C18","f9d5b78":"C18","2a7210c":"C15","12f3169":"C12","6f2d3f1":"C06","c89bef4":"C15","de24365":"C18"}
k=json.load(open("known_findings.json"))
k["fixed"]=["fixed: property=%s %s %s"%(m[l[:7]],l[:7],l[8:].replace("fix: ","")) for l in reversed(log) if l[:7] in m]
json.dump(k,open("known_findings.json","w"),indent=1)
