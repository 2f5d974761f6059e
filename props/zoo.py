"""Not a property: a zoo of Python constructs over symbolic values, for the engine's own
self-test.  `python3 check.py ZOO` explores each and compares sampled paths with CPython;
its last line must not report mismatches (`clampfl` aside: float rounding is
over-approximated there) nor anything odd."""

import bisect, collections, contextlib, functools, itertools, math, operator, re, string, textwrap, html, io, struct, enum, dataclasses, typing
BOUNDS="";OUTSIDE="";ASSUMES=[];COVERS=();BUDGET={"quick":400,"thorough":600}
AL=((97,99),(48,50),(27,27),(59,59),(91,91),(109,109),(32,32))
FNS={}
def z(f):
    FNS[f.__name__]=f
    return f
def tasks(tier):
    import os
    only=os.environ.get("ZOO")
    return [(n,"run",{"name":n}) for n in FNS if not only or n in only.split(",")]
def noop(inp): pass
def run(inp,name):
    i,j=inp.int("i",-3,12),inp.int("j",1,5)
    c=inp.int("c",0,255)
    s=inp.text("s",0,2,AL) if name in ("case","isx","bytesdec","mth","byt","byt2","mth3") else inp.text("s",0,3,AL)
    b=inp.bool("b")
    k=inp.cint("k",0,2)
    inp.assume((i*7+j*3+c)%3==k)
    if k: inp.assume(c>40+k*50)
    if k==2: inp.assume(i>4)
    try:
        r=FNS[name](i,j,c,s,b)
    except (ValueError,IndexError,KeyError,ZeroDivisionError,StopIteration) as e:
        r=("exc",type(e).__name__)
    inp.observe(r)
@z
def divm(i,j,c,s,b): return divmod(i,j)
@z
def divm2(i,j,c,s,b):
    q,r=divmod(c,36); return q//6,q%6,r
@z
def hexs(i,j,c,s,b): return hex(c)[2:]
@z
def binx(i,j,c,s,b): return bin(j)
@z
def fmtx(i,j,c,s,b): return f"{c:02x}{c:>4}{s:<5}{s:^7}|{i:+d}|{c:04d}|{s!r}"
@z
def fmtdyn(i,j,c,s,b): return f"{s:>{j}}|{c:{j}}"
@z
def fmtfloat(i,j,c,s,b): return f"{c/255:.2f}"
@z
def fmtpct(i,j,c,s,b): return "%d;%s %02X %5.1f" % (c,s,c,c)
@z
def fmtmeth(i,j,c,s,b): return "{};{0}".format(1) if False else "{0};{a}{0!s}".format(c,a=s)
@z
def fmtjoin(i,j,c,s,b): return ";".join(map(str,(i,j,c)))
@z
def fmtpercentdict(i,j,c,s,b): return "%(a)s" % {"a":s}
@z
def ljust(i,j,c,s,b): return s.ljust(j,"."),s.rjust(j),s.center(5,"-"),s.zfill(4)
@z
def mulstr(i,j,c,s,b): return s*j, i*"x", [0]*j
@z
def sl(i,j,c,s,b): return s[i:],s[:i],s[-j:],s[::-1],s[i:j]
@z
def sliceobj(i,j,c,s,b): return s[slice(0,j)], list(s)[slice(i,None)]
@z
def lstslice(i,j,c,s,b):
    l=[1,2,3,4]; l[i:j]=["a"]; del l[:1]; return l
@z
def rng(i,j,c,s,b): return list(range(i,j)),list(range(j,0,-1)),j in range(2,4), len(range(i,12))
@z
def rng2(i,j,c,s,b): return c in range(48,58), c in range(0,100,3)
@z
def minmax(i,j,c,s,b): return min(i,j),max(i,j,c),max([i,j],key=lambda v:-v),min(0,c),max((),default=j)
@z
def clamp(i,j,c,s,b): return max(0,min(255,c*j))
@z
def cond(i,j,c,s,b): return i if b else j, 0<i<=j<c, not b, b and i, b or j, i and j
@z
def chain(i,j,c,s,b): return 0 <= i < j != c
@z
def srt(i,j,c,s,b): return sorted([i,j,c]),sorted(s),sorted([(i,1),(j,0)],key=operator.itemgetter(0),reverse=True)
@z
def anyall(i,j,c,s,b): return any(x>i for x in (j,c)),all(map(str.isdigit,s))
@z
def anygen(i,j,c,s,b): return any(ch in "am" for ch in s), sum(1 for ch in s if ch=="a"), next((k for k,ch in enumerate(s) if ch==";"),-1)
@z
def isx(i,j,c,s,b): return s.isdigit(),s.isalpha(),s.isspace(),s.isalnum(),s.islower(),s.isupper(),s.isprintable(),s.isnumeric(),s.isdecimal(),s.isidentifier(),s.istitle(),s.isascii()
@z
def case(i,j,c,s,b): return s.upper(),s.lower(),s.title(),s.capitalize(),s.swapcase(),s.casefold()
@z
def strip(i,j,c,s,b): return s.strip(),s.lstrip("a"),s.rstrip("m;"),s.removeprefix("\x1b["),s.removesuffix("m")
@z
def split(i,j,c,s,b): return s.split(),s.split(";"),s.rsplit(";",1),s.partition("m"),s.rpartition("a"),s.splitlines(),s.split("a",1)
@z
def repl(i,j,c,s,b): return s.replace("a","xy"),s.replace("",".") ,s.replace("a","",1)
@z
def find(i,j,c,s,b): return s.find("a"),s.rfind("m"),s.count("a"),s.index(";"),
@z
def rindex(i,j,c,s,b): return s.rindex("a")
@z
def trans(i,j,c,s,b): return s.translate({97:"X",98:None,ord("m"):77})
@z
def trans2(i,j,c,s,b): return s.translate(str.maketrans("ab","AB",";"))
@z
def startsw(i,j,c,s,b): return s.startswith(("a","\x1b")),s.endswith("m"),s.startswith("b",1)
@z
def cmpstr(i,j,c,s,b): return s<"b",s>="a1","a"<=s[:1]<="c",s=="ab",s!="",s in ("a","b",""),s in {"a","m"},s in "abc"
@z
def dct(i,j,c,s,b):
    d={"a":1,"b":2}; return d.get(s),d.get(s,0),s in d,d.setdefault(s,9),len(d)
@z
def dct2(i,j,c,s,b):
    d={1:"x",2:"y",3:"z"}; return d.get(i,"-"), d[j] if j in d else None, {i:1}.get(j), list({i:1,j:2}.values())
@z
def dct3(i,j,c,s,b):
    d={}
    for ch in s: d[ch]=d.get(ch,0)+1
    return sorted(d.items())
@z
def dct4(i,j,c,s,b):
    d=collections.defaultdict(list)
    d[j].append(1); d[i].append(2)
    return d[1],len(d)
@z
def ctr(i,j,c,s,b): return sorted(collections.Counter(s).values())
@z
def dq(i,j,c,s,b):
    q=collections.deque(s,maxlen=2); out=[]
    while q: out.append(q.popleft())
    return out
@z
def sets(i,j,c,s,b):
    t=set(); t.add(i); t.add(j); return len(t), i in t, {i}=={j}, 3 in {i,j}
@z
def itert(i,j,c,s,b): return list(itertools.chain(s,"x")),list(itertools.islice(s,2)),list(itertools.accumulate([i,j,c])),list(itertools.takewhile(lambda x:x!="a",s)),list(itertools.zip_longest(s,"ab"))
@z
def itert2(i,j,c,s,b): return [(k,len(list(g))) for k,g in itertools.groupby(s)]
@z
def itert3(i,j,c,s,b): return list(itertools.repeat(s,j)), list(itertools.product((i,),(j,c))), list(itertools.pairwise(s))
@z
def itert4(i,j,c,s,b): return list(itertools.islice(itertools.count(i),j))
@z
def zips(i,j,c,s,b): return list(zip(s,range(j))),list(enumerate(s,i)),list(reversed(s)),dict(zip("ab",(i,j)))
@z
def mapf(i,j,c,s,b): return list(map(ord,s)),list(filter(None,[i,j])),list(filter(str.isdigit,s)),list(map(int,filter(str.isdigit,s)))
@z
def red(i,j,c,s,b): return functools.reduce(lambda a,x:a*2+x,[i,j,c]),functools.reduce(operator.add,s,""),functools.partial(max,0)(i)
@z
def oper(i,j,c,s,b): return operator.add(i,j),operator.mul(i,2),operator.lt(i,j),operator.contains(s,"a"),operator.attrgetter("real")(j)
@z
def mth(i,j,c,s,b): return math.floor(c/2),math.ceil(c/16),math.trunc(c/3),math.isclose(c,4.0),math.hypot(0,c),math.fabs(i)
@z
def mth2(i,j,c,s,b): return math.sqrt(c), math.pow(c,2), c**0.5, c**2
@z
def mth3(i,j,c,s,b): return math.copysign(1,i), math.fmod(c,7), math.gcd(c,12), math.log(c+1)
@z
def mth4(i,j,c,s,b): return math.floor(c), math.ceil(i), math.isqrt(c), math.dist((c,0),(0,0)), math.inf>c
@z
def bits(i,j,c,s,b): return c&32,c|64,c^1,c>>2,c<<1,~c,c.bit_length(),bool(c&4)
@z
def bits2(i,j,c,s,b): return (c>>4)&3, (c&0xf0)>>4, 1<<j, (j<<8)|c
@z
def flt(i,j,c,s,b): return c/255,round(c/255*5),int(c/51),c*0.299,abs(i-j),round(c/3,2),-i,+i, i/j
@z
def flt2(i,j,c,s,b): return float(c)//51, c%7, c/2%3, c//j, -7//j, i%j
@z
def pw(i,j,c,s,b): return 2**j, (c/255)**2.4, pow(j,2), pow(3,j,5)
@z
def intp(i,j,c,s,b): return int(s) 
@z
def intp2(i,j,c,s,b): return int(s,16), int(s,8)
@z
def fltp(i,j,c,s,b): return float(s)
@z
def byt(i,j,c,s,b): return s.encode(),len(s.encode("utf-8"))
@z
def byt2(i,j,c,s,b): return bytes([c,j]), bytes((c,))[0], c.to_bytes(1,"big")
@z
def byt3(i,j,c,s,b): return bytes.fromhex("0a")+bytes([c]), bytearray([c])
@z
def tup(i,j,c,s,b):
    a,*r=(i,j,c); (x,y),w=(i,j),c; return a,r,x,y,w,(i,j)<(j,i),(i,j)==(1,2),[i]+[j],(i,)*2, (i,j).index(j), [i,j,c].count(1)
@z
def lst(i,j,c,s,b):
    l=[i,j,c]; l.append(s); l.insert(0,1); l.pop(); l.reverse(); l.extend(s); return l, l.index(1), 12 in l
@z
def lst2(i,j,c,s,b):
    l=list(range(6)); return l[j],l[-j],l[j-1:], l.pop(j)
@z
def lst3(i,j,c,s,b):
    l=[3,1,2]; l.sort(key=lambda v:-v if b else v); l.remove(j) if j in l else None; l[0]+=i; return l
@z
def lst4(i,j,c,s,b):
    l=[[0]*3 for _ in range(2)]; l[j%2][j%3]=s; l[0][i%3]=c; return l
@z
def mtch(i,j,c,s,b):
    match s:
        case "a"|"b": r=1
        case "": r=2
        case x if x.startswith("m"): r=3
        case _: r=4
    match i:
        case 0|1: q="low"
        case n if n<0: q="neg"
        case _: q="hi"
    match (i,s):
        case (3,"a"): w=1
        case (int(),str()): w=2
        case _: w=3
    return r,q,w
@z
def mtch2(i,j,c,s,b):
    match [*s]:
        case []: return 0
        case ["a",*rest]: return rest
        case [x]: return x
        case [x,y,*_]: return y,x
@z
def walrus(i,j,c,s,b):
    if (n:=len(s))>1: return n
    return [y for x in s if (y:=x+x)]
@z
def gen(i,j,c,s,b):
    def g():
        k=yield 1
        yield from s
        return
    it=g(); next(it); return list(it)
@z
def gensend(i,j,c,s,b):
    def g():
        tot=0
        while True:
            v=yield tot
            if v is None: return
            tot+=v
    it=g(); next(it); return it.send(i),it.send(j)
@z
def whil(i,j,c,s,b):
    n=c; out=[]
    while n: out.append(n%16); n//=16
    return out
@z
def whileelse(i,j,c,s,b):
    for ch in s:
        if ch=="a": break
    else: return "none"
    return "found"
@z
def tryx(i,j,c,s,b):
    try: v=int(s)
    except ValueError: v=-1
    else: v+=1
    finally: w=1
    with contextlib.suppress(KeyError,ValueError): v+={"a":1}[s]
    return v,w
@z
def rex(i,j,c,s,b): return re.sub(r"\x1b\[[0-9;]*m","",s),re.findall("[a-c]",s),bool(re.match("a.",s)),re.split(";",s),bool(re.fullmatch(r"\d+",s))
@z
def rex2(i,j,c,s,b):
    p=re.compile(r"(?P<n>\d+)|(?P<l>[a-c])"); return [(m.lastgroup,m.group(),m.span()) for m in p.finditer(s)]
@z
def rex3(i,j,c,s,b): return re.sub(r"(\d)(.)",r"\2\1",s), re.sub("[am]",lambda m:m[0].upper(),s,count=1), re.subn("a","b",s), re.search("m$",s) is not None, re.escape(s)
@z
def rex4(i,j,c,s,b):
    m=re.match(r"([^;]*);?(.*)",s); return m.groups(),m.start(2),m.expand(r"<\1>"),m.groupdict(),m[2]
@z
def rex5(i,j,c,s,b): return re.sub(r"(?i)A+","-",s), re.search(r"(?<=a)b",s) is not None, re.findall(r"(?:a|b)(?!m)",s), re.search(r"\bm",s) is not None
@z
def sio(i,j,c,s,b):
    f=io.StringIO(); f.write(s); print(i,j,sep=";",end="",file=f); return f.getvalue()
@z
def sio2(i,j,c,s,b):
    with io.StringIO(s) as f: a=f.read(1); r=f.readline(); l=list(io.StringIO(s))
    return a,r,l
class Pt(typing.NamedTuple):
    x:int
    y:int=0
@dataclasses.dataclass(frozen=True,order=True)
class DC:
    x:int
    y:int=0
class En(enum.Enum):
    A=1
    B=2
class IE(enum.IntEnum):
    A=1
    B=2
class Fl(enum.Flag):
    A=1
    B=2
@z
def nt(i,j,c,s,b):
    p=Pt(i,j); q=p._replace(x=c); d=DC(i,j); return p==(1,2),q.x,p._asdict()["x"],d==DC(1,2),d<DC(3,3),dataclasses.replace(d,x=5).y,dataclasses.astuple(d),dataclasses.asdict(d)
@z
def enu(i,j,c,s,b): return En(j).name
@z
def enu2(i,j,c,s,b): return IE(j).name, j==IE.A, [e for e in IE if e<j]
@z
def glob(i,j,c,s,b):
    cnt=0
    def inc(n):
        nonlocal cnt
        cnt+=n
    for x in (i,j): inc(x)
    return cnt
@z
def kw(i,j,c,s,b):
    def f(*a,k=1,**o): return a,k,sorted(o)
    return f(i,k=j,z=1), f(*s), f(**{"k":c})
@z
def lam(i,j,c,s,b): return (lambda x,y=2:x*y)(i), [f(j) for f in (str,float,abs,bool)]
@z
def lru(i,j,c,s,b):
    @functools.lru_cache(maxsize=None)
    def f(n): return 1 if n<=1 else n*f(n-1)
    return f(j)
@z
def bis(i,j,c,s,b): return bisect.bisect_left([0,95,135,175],c),bisect.bisect([1,3],i)
@z
def htm(i,j,c,s,b): return html.escape(s+"<&"),textwrap.shorten(s,5) if False else 1, string.digits[j]
@z
def typ(i,j,c,s,b): return type(i) is int,type(s) is str,isinstance(s,str),isinstance(b,bool),isinstance(i,(int,float)),isinstance(c,bool),type(s).__name__,callable(i)
@z
def boolar(i,j,c,s,b): return b+1,sum([b,True,i>2]),int(b),b==True,b is True,b!=False,(i>2)==(j>2),(i>2)!=b,b&(i>1),b|False,b^True, [0,1][b], ("x","y")[i>2]
@z
def asg(i,j,c,s,b):
    x=i; x+=j; x*=2; x-=1; x//=j; x%=5; y=s; y+="z"; y*=2; return x,y
@z
def strit(i,j,c,s,b):
    it=iter(s); a=next(it,None); return a,"".join(it), "".join(reversed(s)), "".join(sorted(s)), s[len(s)-1:] , "".join(dict.fromkeys(s))
@z
def ternest(i,j,c,s,b): return "a" if c<48 else "b" if c<115 else "c", (c-35)//40
@z
def dictdisp(i,j,c,s,b): return {0:"zero",1:"one"}.get(i%3,"many"), {True:1,False:2}[b], {(0,1):5}.get((i,j)), {**{"a":1},"b":i}
@z
def strconv(i,j,c,s,b): return str(i)+str(j),str(c).zfill(3),len(str(c)),str(c)[0],str(c)[::-1],int(str(c)[-1]),repr(i),str(b),str(None),str((i,s)),repr([i]),ascii(j)
@z
def chrs(i,j,c,s,b): return chr(c),chr(ord("a")+j),ord(chr(c))
@z
def bytesdec(i,j,c,s,b): return bytes([c&127]).decode(), s.encode("latin-1").decode()
@z
def joinx(i,j,c,s,b): return s.join("ab"),",".join(list(s)),"".join([s,s]),s.expandtabs(), s.join([])
@z
def strfmt(i,j,c,s,b): return "{:>3}".format(s),"{}{}".format(i,s),format(c,"x"),format(s,"<4"),"{:{w}}".format(s,w=j), "{0[0]}".format([i]), "#%s" % s, "{:,}".format(c*1000), "{:b}".format(j), "{:e}".format(1.0)
@z
def exc(i,j,c,s,b):
    try:
        if i>5: raise KeyError(s)
        assert j<5, "x"
    except KeyError as e: return e.args[0]
    except AssertionError as e: return str(e)
    return "ok"
@z
def objd(i,j,c,s,b):
    class A:
        __slots__=("v",)
        def __init__(self,v): self.v=v
        def __eq__(self,o): return self.v==o.v
        def __hash__(self): return hash(self.v)
        def __lt__(self,o): return self.v<o.v
        def __len__(self): return 2
        def __bool__(self): return self.v>3
        def __add__(self,o): return A(self.v+o.v)
        def __iter__(self): yield self.v
        def __contains__(self,o): return o==self.v
        def __getitem__(self,k): return self.v+k
        def __call__(self): return self.v
        def __str__(self): return f"A{self.v}"
        @property
        def p(self): return self.v
        @classmethod
        def mk(cls,v): return cls(v)
        @staticmethod
        def st(v): return v
    a,d=A(i),A(j)
    return a==d,a!=d,a<d,bool(a),(a+d).v,list(a),3 in a,a[1],a(),str(a),f"{a}",a.p,A.mk(c).v,A.st(s),max(a,d).v,sorted([a,d])[0].v, getattr(a,"v"), hasattr(a,"q"), [A(3)].index(A(3)), a in [d], "%s"%a
@z
def objh(i,j,c,s,b):
    class A:
        def __init__(self,v): self.v=v
        def __eq__(self,o): return self.v==o.v
        def __hash__(self): return hash((self.v,1))
    d={A(i):1}; return d.get(A(j)), len({A(i),A(j)})
@z
def setattrs(i,j,c,s,b):
    class A: pass
    a=A(); setattr(a,"x"+("a" if b else "b"),i); return vars(a), getattr(a,"xa",None), a.__dict__.get("xb")
@z
def cmplx(i,j,c,s,b): return c.real, c.imag, c.conjugate(), i.__add__(j), s.__len__(), s.__contains__("a"), i.__lt__(j)
@z
def unboundstr(i,j,c,s,b): return str.upper(s),str.join("-",s), list(map(str.upper,s)), str.startswith(s,"a")
@z
def dctcomp(i,j,c,s,b): return {k:v for k,v in zip("abc",(i,j,c)) if v>2},{x%2 for x in (i,j)},[a+bb for a in s for bb in "xy"], {"a":1}|{"b":i}, dict(a=i,**{"z":j})
@z
def prn(i,j,c,s,b): return "".join(f"{x}" for x in (i,s)), f"{i=}", f"{s!r:>6}", f"{'a' if b else 'b'}", f"{i:>{j+1}}"
@z
def lsteq(i,j,c,s,b): return [i,j]==[1,2],(i,s)==(1,"a"),[[i]]!=[[2]],{"k":i}=={"k":2},[i,j]<[2,2],list(s)==["a"],tuple(s)<("b",)
@z
def isnone(i,j,c,s,b): return (s or None) is None,i is None,i is not None, s is s, (i or 5), (s and s[0])
@z
def packx(i,j,c,s,b): return struct.pack("B",c)
@z
def ucat(i,j,c,s,b):
    import unicodedata
    return [unicodedata.category(x) for x in s],[unicodedata.east_asian_width(x) for x in s]
@z
def strset(i,j,c,s,b): return set(s)&set("am"), set(s)<=set("am;"), frozenset(s)==frozenset("a"), not set(s).isdisjoint("b"), len(set(s))
@z
def intmeth(i,j,c,s,b): return (-j)//2, int(-3.5), abs(-i), int(c/10)*10, round(i/2), round(2.5), i.is_integer() if hasattr(i,"is_integer") else None

@z
def floordiv(i,j,c,s,b): return [x//4 for x in (i,-i,c)], [x%4 for x in (i,-i)], i//-3, i%-3
@z
def strnum(i,j,c,s,b): return f"\x1b[{c};{j}m", ("\x1b[%d;%dH" % (j,c)).split(";"), f"{c}".isdigit(), f"{c};{i}".replace(";",","), f"a{c}b"[1:-1], f"{c}" == "12", f"{c}m".endswith("m"), f"{c}".startswith("1")
@z
def strnum2(i,j,c,s,b): return f"{c};{j}".partition(";"), f"{c};{j}".rsplit(";",1), int(f"{c}"), f"{c}".rjust(4), f"{c};{i};{j}".split(";")[1], len(f"{c};{j}"), f"<{c}>".strip("<>"), f"{c}"+f"{j}" in ("11","12","2551")
@z
def strnum3(i,j,c,s,b): return re.findall(r"\d+",f"{c};{j}"), re.sub(r"\x1b\[[\d;]*m","",f"\x1b[{c}m{s}"), re.match(r"(\d+);(\d+)",f"{c};{j}").groups(), [int(x) for x in f"{c};{j};{i}".split(";")]
@z
def strnum4(i,j,c,s,b): return f"{c};{j}".find(";"), f"{c}{s}"[-1:], f"{s}{c}"[:2], list(f"{c}"), f"{c}".count("1"), f"{c};{j}".index(";"), "".join(reversed(f"{c}"))
@z
def clampfl(i,j,c,s,b): return min(max(c/255,0.1),0.9), int(min(255,c*1.5)), round(c*0.7), int(c+(255-c)*0.3), tuple(int(v*255) for v in (c/255,)), max(0.0,c-300.5)
@z
def lum(i,j,c,s,b):
    v=c/255
    v = v/12.92 if v<=0.03928 else ((v+0.055)/1.055)**2.4
    return v<0.5
@z
def cmpfl(i,j,c,s,b): return c/255>0.5, c*0.299>30, (c+i)/2>=c, c==c+0.0, 0.5<c/255<0.8, c/3==int(c/3)
@z
def nestedfn(i,j,c,s,b):
    def rec(t): return t if not t else rec(t[1:])+t[0]
    return rec(s)
@z
def scan(i,j,c,s,b):
    out=[];k=0
    while k<len(s):
        if s[k]=="\x1b" and k+1<len(s):
            k+=2; continue
        out.append(s[k]); k+=1
    return "".join(out)
@z
def scan2(i,j,c,s,b):
    it=iter(s); out=""
    for ch in it:
        if ch=="\x1b":
            for ch in it:
                if ch=="m": break
            continue
        out+=ch
    return out
@z
def grid(i,j,c,s,b):
    g=[list("....") for _ in range(3)]
    for y,row in enumerate(g):
        for x,_ in enumerate(row):
            if x==i and y==j: g[y][x]="#"
    return ["".join(r) for r in g]
@z
def grid2(i,j,c,s,b):
    g={(x,y):"." for x in range(3) for y in range(2)}
    if (i,j) in g: g[i,j]="#"
    return sorted(g.items())
@z
def grid3(i,j,c,s,b):
    g=[[0]*4 for _ in range(4)]
    if 0<=i<4 and j<4: g[j][i]=1; g[i][j]+=2
    return g
@z
def exslice(i,j,c,s,b):
    if not s: raise ValueError("x")
    a,*r=s; return a,r,s[0],s[-1]
@z
def strord(i,j,c,s,b): return [ord(x)-97 for x in s if "a"<=x<="c"], "".join(chr(ord(x)+1) for x in s), sum(ord(x) for x in s)
@z
def unpk(i,j,c,s,b):
    a,b2=s
    return a
@z
def unpk2(i,j,c,s,b):
    x,y,zz=(int(v) for v in f"{i};{j};{c}".split(";")); return x+y+zz
@z
def decor(i,j,c,s,b):
    def d(f):
        @functools.wraps(f)
        def w(*a,**k): return ("w",f(*a,**k))
        return w
    @d
    def g(x): return x+1
    return g(i), g.__name__
@z
def ctxm(i,j,c,s,b):
    log=[]
    @contextlib.contextmanager
    def cm():
        log.append("in")
        try: yield s
        finally: log.append("out")
    try:
        with cm() as v:
            log.append(v)
            if i>3: raise ValueError
    except ValueError: log.append("err")
    return log
@z
def cprop(i,j,c,s,b):
    class A:
        def __init__(self,v): self.v=v
        @functools.cached_property
        def w(self): return self.v*2
        def __repr__(self): return f"A({self.v})"
    a=A(i); return a.w+a.w, f"{a!r}", repr(a), str([a])
@z
def singled(i,j,c,s,b):
    @functools.singledispatch
    def f(x): return "o"
    @f.register
    def _(x:int): return "i"
    @f.register
    def _(x:str): return "s"
    return f(i),f(s),f(None)
@z
def sidx(i,j,c,s,b): return "abcdefghijklmnop"[c>>4], "0123456789abcdef"[c&15], ("a","b","c")[j%3], "xyz"[i%3]
@z
def posix(i,j,c,s,b): return 16+36*(c//51)+6*j+i, (c//51)*51, (0,95,135,175,215,255)[c//51], min(range(6),key=lambda k:abs((0,95,135,175,215,255)[k]-c))
@z
def euclid(i,j,c,s,b): return min([(0,0),(128,1),(255,2)],key=lambda t:(t[0]-c)**2)[1]
@z
def sortedkey(i,j,c,s,b): return sorted([("a",i),("b",j)],key=lambda t:(t[1],t[0])), [x for _,x in sorted(zip([i,j,3],"abc"))]
@z
def setopsint(i,j,c,s,b): return {1,2,3}&{i,j}, {i}|{j}, {1,2}-{j}, i in frozenset((1,2)), sorted({i,j}^{3})
@z
def chainmap(i,j,c,s,b): return collections.ChainMap({"a":i},{"a":1,"b":j})["a"], collections.OrderedDict(a=i), types_ns(i)
def types_ns(i):
    import types as _t
    return _t.SimpleNamespace(v=i).v
@z
def wraps(i,j,c,s,b): return textwrap.wrap("aa bb cc",j+2), textwrap.dedent("  a\n  b"), textwrap.fill("a b c d",j+1)
@z
def emptyj(i,j,c,s,b): return "".join([]), "".join(x for x in s if x not in ";m"), "".join(map(lambda x:x*2,s)), " ".join(s.split())

@z
def reprs(i,j,c,s,b): return repr(s), repr(s+"'"), repr(s+"'\""), repr([s,i]), repr((s,)), f"{s!r}", "%r"%s, repr({"a":s})
