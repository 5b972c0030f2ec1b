import sys,json
sys.path.insert(0,'/repo')
from utg import relations as r, data
G={}
def k(rec): return None if rec is None else rec.name
for p in r.PROPERTY_TYPE.records:
    rel=p.relation
    G[rel.__name__]=dict(code=p.value,name=p.name,text=p.text,values=[[x.name,x.value,x.text,x.verbose_id] for x in rel.records])
types={t.name:dict(code=t.value,schema=[s.__name__ for s in t.schema],props={g.__name__:v for g,v in t.properties.items()}) for t in r.WORD_TYPE.records}
slots={t.name:[list(map(k,key)) for key in data.INVERTED_WORDS_CACHES[t]] for t in r.WORD_TYPE.records}
json.dump(dict(groups=G,types=types,slots=slots),open('/verif/rv/golden/current.json','w'),ensure_ascii=False,indent=0)
import importlib
for n,m in ((7,'m_0007_reduce_words_forms'),(8,'m_0008_lower_animiality_nearest_priority'),(9,'m_0009_pronoun_modernization')):
    mod=importlib.import_module('utg.migrations.'+m)
    out={}
    for which in ('OLD','NEW'):
        C=getattr(mod,which+'_CACHES')
        out[which]={t.name:sorted([[idx,[None if x is None else '%s.%s'%(type(x).__name__ if False else x._relation.__name__,x.name) for x in key]] for key,idx in c.items()],key=lambda z:z[0]) for t,c in C.items()}
    json.dump(out,open('/verif/rv/golden/layout_%d.json'%n,'w'),ensure_ascii=False,separators=(',',':'))
