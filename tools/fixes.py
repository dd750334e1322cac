import subprocess,json
M={'f16231c':'P02','c31416d':'P03','017c7f4':'P03','e11c431':'P03','abe64a4':'P04','63faa2a':'P04','e573e13':'P04','880753e':'P04','19fd687':'P06','7c12caf':'P06','2051495':'P06'}
kw=[('derived from nested collections','P02'),('foreign keys are serialized','P18'),('expanding a definition','P05'),('any of its names and paths','P03'),('deleter is called','P05'),('data naming its class','P23'),('class named by its data','P23'),('another class than the declared','P23'),('objects of derived classes are checked','P23'),('type made on the fly','P01'),('scoped session already present','P22'),('separator of flattened', 'P21'),('no empty page after', 'P21'),('casted instance gets', 'P21'),('dependencies given to topological', 'P21'),('path with an index designates', 'P21'),('collection filtered on keys', 'P21'),('text is left as it is when', 'P21'),('methods of empty collections convert', 'P20'),('array arguments of decorated', 'P20'),('logging decorator usable', 'P20'),('invalid arguments of decorated', 'P20'),('memoized methods overridden', 'P20'),('canonical name of an instance follows','P09'),('entities nested in a serialized','P06'),('context sees the maps','P19'),('of a context can be','P19'),('attached registry','P19'),('registry of weak','P19'),('class registry returns','P19'),('foreign key','P18'),('what a getter gives is serialized','P07'),('refer to each other','P17'),('whose type is a proxy','P17'),('namespace','P15'),('documents whose uris','P15'),('document registered again','P16'),('relative url','P16'),('instances know their parent','P09'),('placed','P09'),('canonical names','P09'),('text of an instance','P09'),('time zone of a datetime','P10'),('serialized datetime','P10'),('datetime given for','P10'),('declared date format','P10'),('value is falsy can be','P10'),('converted to a path','P10'),('symbols are','P13'),('memory repository','P13'),('foreign key resolution names','P13'),('called with 0','P13'),('empty array given','P14'),('defaults','P14'),('default of an object','P14'),('can be given a default','P14'),('get_descendant','P11'),('query criteria','P11'),('query operators','P11'),('query filters','P11'),('query','P12'),('queries','P12'),('enumeration rejects','P01'),('not dates or times','P01'),('looked up in a class','P05'),('alter the schema','P05'),('also extends','P05'),('redefined','P05'),('has its own prop','P05'),('items of an array by index','P02'),('follows','P02'),('follow','P02'),('holding equal','P07'),('insertion leaves','P08'),('assigned in a lazy array','P08'),('slices','P08'),('getter or setter','P05'),('inserted in a lazy array','P08'),('own context when ser','P07')]
out=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','f92455f..HEAD'],capture_output=True,text=True).stdout
p='/verif/known_findings.json'; d=json.load(open(p))
old={f['commit']:f for f in d['fixed']}
fx=[]
for l in out.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    pr=old.get(h,{}).get('property') or M.get(h) or next((v for k,v in kw if k in s),None)
    import sys
    if not pr: print('??',h,s); pr='P00'
    fx.append({'property':pr,'commit':h,'what':'fixed: property=%s %s %s'%(pr,h,s[5:])})
d['fixed']=fx
json.dump(d,open(p,'w'),indent=1)
print(len(fx))
