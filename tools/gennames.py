import re,unicodedata as U
def lit(s):
    s=re.sub(r'\\u\{([0-9A-Fa-f]+)\}',lambda m:chr(int(m[1],16)),s)
    return s.replace('\\"','"').replace('\\\\','\\')
rows=[]
for mod,cls in [('digits','Digits'),('alphabets','Alphabets'),('punctuations','Punctuations'),('kanas','Kanas'),('cjk_compatibilities',None)]:
    t=open(mod+'.rs').read()
    for m in re.finditer(r'pub const (\w+): Correspondence<Linear> =\s*Linear::new\("((?:[^"\\]|\\.)*)", "((?:[^"\\]|\\.)*)"\)',t):
        rows.append((mod,cls,m[1],lit(m[2]),lit(m[3])))
print(len(rows))
exc={'QUOTATION_MARK':('\u201d','"'),'APOSTROPHE':('\u2019',"'"),'TILDE':('\u301c','~'),'YEN_SIGN':('\uffe5','\u00a5'),'SHARP':('＃','#'),'DOLLER_SIGN':('＄','$'),'SLASH':('／','/'),'SEMI_COLON':('；',';'),'AT_SIGN':('＠','@'),'BACKSLASH':('＼','\\'),'EQUAL_SIGN':('＝','='),'IDEOGRAPHIC_SPACE':('\u3000',' '),'VERTICAL_BAR':('｜','|'),'SQUARE_KK':('\u33cd','K.K.'),'SQUARE_PH':('\u33d7','pH'),'SQUARE_PPM':('\u33d9','ppm')}
romaji={'HU':'HU','SI':'SI'}
out=[]
for mod,cls,name,f,t in rows:
    if name in exc: ef,et=exc[name]
    else:
        if mod=='digits': un='FULLWIDTH '+name.replace('_',' ')
        elif mod=='alphabets': un='FULLWIDTH LATIN '+name.replace('_',' ')
        elif mod=='punctuations': un='FULLWIDTH '+name.replace('_',' ').replace('HYPHEN MINUS','HYPHEN-MINUS').replace('LESS THAN','LESS-THAN').replace('GREATER THAN','GREATER-THAN')
        elif mod=='kanas': un='HALFWIDTH '+name.replace('_',' ')
        else:
            un=name.replace('_',' ')
            un=re.sub(r'(TWENTY|THIRTY) (ONE|TWO|THREE|FOUR|FIVE|SIX|SEVEN|EIGHT|NINE)$',r'\1-\2',un)
        try: ef=U.lookup(un)
        except KeyError: print('NO',name,un); continue
        et=U.normalize('NFKC',ef)
        if mod=='cjk_compatibilities':
            et=et.replace('\u2215','/').replace('\u2044','/').replace('\u03bc','\u00b5')
    if (ef,et)!=(f,t): print(name,'source',[hex(ord(c)) for c in f],t,[hex(ord(c)) for c in t],'expected',hex(ord(ef)),et,[hex(ord(c)) for c in et])
    out.append((mod,cls,name,ef,et))
cov={o[3] for o in out if o[0]=='cjk_compatibilities'}
print('uncovered',[hex(c) for c in range(0x3300,0x3400) if chr(c) not in cov])
def rs(s): return '"'+''.join('\\u{%x}'%ord(c) if ord(c)>126 else {'"':'\\"','\\':'\\\\'}.get(c,c) for c in s)+'"'
with open('/verif/harness/src/props/names.rs','w') as w:
    w.write("//! Expected entry of every named constant: (set, name, value, from, to). Derived from the Unicode names and\n//! compatibility decompositions, with the documented exceptions; not from the values in the code.\n\nuse chanoma::characters_set::alphabets::Alphabets;\nuse chanoma::characters_set::cjk_compatibilities as cjk;\nuse chanoma::characters_set::digits::Digits;\nuse chanoma::characters_set::kanas::Kanas;\nuse chanoma::characters_set::punctuations::Punctuations;\nuse chanoma::{corr::Linear, Correspondence};\n\npub type Named = (&'static str, &'static str, Correspondence<Linear>, &'static str, &'static str);\n\n#[rustfmt::skip]\npub fn all() -> Vec<Named> {\n    vec![\n")
    for mod,cls,name,f,t in out:
        p=(cls or 'cjk')+'::'+name
        w.write('        ("%s", "%s", %s, %s, %s),\n'%(mod,name,p,rs(f),rs(t)))
    w.write("    ]\n}\n")
