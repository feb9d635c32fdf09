# usage: addmut.py file with BREAK=[...] and HARMLESS=[...] text blocks
import sys,re
src=open(sys.argv[1]).read()
b,h=src.split("#HARMLESS\n")
p='/verif/tools/mutants.py'
s=open(p).read()
i=s.index("\nHARMLESS = [")
j=s.rindex("]",0,i)
s=s[:j]+b+s[j:]
k=s.rindex("]")
s=s[:k]+h+s[k:]
open(p,'w').write(s)
