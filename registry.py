"""Which stages decide which property (see DESIGN.md)."""
CHECKS = {}
def check(pid, stages, **kw): CHECKS[pid] = dict(stages=stages, **kw)
def model(name, module, cfg=None, **kw): return dict(kind='model', name=name, module=module, cfg=cfg or name + '.cfg', **kw)
def gen(name, module, cfg=None, **kw): return dict(kind='gen', name=name, module=module, cfg=cfg or name + '.cfg', **kw)

check('C01', [
    gen('ImageExh', 'ImageGen', mode='bfs', alt=True),
    gen('ImageSim', 'ImageGen', alt=True, num=1200, depth=60, shards=3, thorough=dict(num=6000, shards=6)),
    gen('ImageDeep', 'ImageGen', num=50, depth=140, thorough=dict(num=300)),
    gen('ImageMid', 'ImageBig', mode='bfs'),
    gen('ImageBig', 'ImageBig', mode='bfs', alt=True),
    gen('ImageWide', 'ImageGen', num=12, depth=400, thorough=dict(num=60)),
], technique='TLA+/TLC image-format specification (writer + independent reader); generated images replayed into the parser')
check('C02', [
    gen('DeepWay', 'DeepNav', mode='bfs'),
    gen('LookupExh', 'ImageLookup', mode='bfs'),
    gen('LookupBig', 'ImageBig', mode='bfs'),
    gen('LookupSim', 'ImageLookup', num=750, depth=60, shards=3, thorough=dict(num=4000, shards=6)),
    gen('LookupDeep', 'ImageLookup', num=180, depth=100, thorough=dict(num=600)),
], technique='TLA+/TLC lookup specification over generated images; every path asked of the direct-access functions')
check('C24', [
    gen('ReaderSim', 'Reader', num=1200, depth=200, shards=4, thorough=dict(num=6000, shards=6)),
], technique='TLA+/TLC reader state machine; generated read sequences replayed into WzSliceReader and WzReader')
check('C03', [
    gen('StringCodec', 'StringCodec', num=3, depth=120, shards=4, thorough=dict(num=12, shards=6)),
], technique='TLA+/TLC string codec (both storage forms, all keys incl. AES-256 streams computed in TLA+); generated encodings replayed into every reader and writer')

def key_after(m, work, st, outs): return m.validate_traces(work, st, outs, 'KeyTrace')
check('C04', [
    model('KeyConc', 'KeyConc'),
    gen('KeyStream', 'KeyStream', num=3, depth=2000, shards=4, nproc=4, after=key_after, thorough=dict(num=10, shards=6)),
], technique='TLA+/TLC: AES-256 key-stream specification with request sequences replayed; lock protocol model-checked; recorded concurrent executions validated against it')
check('C10', [
    gen('Pkg1Vers', 'Pkg1Gen', mode='bfs', thorough=dict(skip=True)),
    gen('Pkg1AllVers', 'Pkg1Gen', mode='bfs', skip=True, thorough=dict(skip=False, timeout=800)),
    gen('Pkg1LongDeep', 'Pkg1Long', mode='bfs'),
    gen('Pkg1Sim', 'Pkg1Gen', num=220, depth=60, shards=5, thorough=dict(num=1500, shards=7, timeout=800)),
], technique='TLA+/TLC archive specification (writer, offset encryption, version and key detection); generated and damaged archives opened in every way')
check('C11', [
    gen('Pkg1LongDeep', 'Pkg1Long', mode='bfs'),
    gen('Pkg1Tree', 'Pkg1Gen', num=180, depth=80, shards=6, thorough=dict(num=900, shards=7, timeout=800)),
], technique='TLA+/TLC archive specification; listings, offsets and contents compared after parsing in every order')
check('C12', [
    gen('ImgKeys', 'ImgKeys', num=4500, depth=3, shards=2, thorough=dict(num=30000)),
    gen('Pkg1Sim', 'Pkg1Gen', num=180, depth=60, shards=4, thorough=dict(num=1200, shards=6, timeout=800)),
], technique='TLA+/TLC specification of key detection; generated and damaged images and archives opened with and without keys')

def tree(name, **kw): return gen(name, 'TreeGen', alt=True, num=1000, depth=70, shards=5, thorough=dict(num=6000, shards=7, timeout=800), **kw)
check('C05', [tree('TreeHist'), gen('MsHist', 'MsHist', num=45, depth=40, shards=4, alt=True, thorough=dict(num=600, shards=8))], technique='TLA+/TLC tree state machine over archive bytes with faults; generated histories replayed with the whole tree compared after every step')
check('C07', [tree('TreeNav'), gen('DeepNav', 'DeepNav', mode='bfs', alt=True), gen('MsNav', 'MsHist', num=45, depth=40, shards=4, alt=True, thorough=dict(num=600, shards=8))], technique='TLA+/TLC tree state machine; every navigation question answered by the specification and by the code along generated histories')
check('C18', [tree('TreeWalk'), gen('MsWalk', 'MsHist', num=45, depth=40, shards=4, alt=True, thorough=dict(num=600, shards=8))], technique='TLA+/TLC tree state machine; visits and tree state of generated walks compared')
check('C19', [tree('TreeMerge')], technique='TLA+/TLC tree state machine; identities, parents and paths compared after generated transfers')
check('C08', [
    gen('DeepLink', 'DeepNav', mode='bfs', alt=True),
    gen('UolExh', 'Uol', mode='bfs', thorough=dict(timeout=800)),
    gen('UolSim', 'Uol', alt=True, num=3600, depth=60, shards=4, thorough=dict(num=20000, shards=7, timeout=800)),
], technique='TLA+/TLC UOL specification (the nodes each link may stand for, proved acyclic on small trees); every small image and generated larger ones parsed, unparsed and parsed again')
check('C15', [
    gen('CanvasExh', 'CanvasGen', mode='bfs', alt=True),
    gen('CanvasLarge', 'CanvasGen', alt=True, num=50, depth=8, shards=4, thorough=dict(num=600, shards=7, timeout=800)),
    gen('CanvasSim', 'CanvasGen', alt=True, num=1750, depth=8, shards=5, thorough=dict(num=12000, shards=7, timeout=800)),
], technique='TLA+/TLC pixel-format specification (all formats, BC blocks, deflate, encrypted chunks); generated canvases, intact and damaged, decoded and compared pixel by pixel, in both builds')
check('C09', [gen('LinksSim', 'Links', num=1750, depth=250, shards=5, thorough=dict(num=8000, shards=7, timeout=800))],
      technique='TLA+/TLC link specification (where every link leads, which picture must come out); generated archives resolved fresh, fully parsed, from walks and from several threads')
check('C16', [
    gen('JsonFull', 'JsonTree', cfg='JsonTreeFull.cfg', alt=True, num=2100, depth=60, shards=4, thorough=dict(num=15000, shards=7, timeout=800)),
    gen('JsonFullDeep', 'JsonTree', cfg='JsonDeepFull.cfg', alt=True, num=450, depth=120, shards=2, thorough=dict(num=2000, shards=7, timeout=800)),
], technique='TLA+/TLC tree generator; every generated tree serialised, read back (value and text) and compared, parent links restored and navigated')
check('C17', [
    gen('JsonSimple', 'JsonTree', cfg='JsonTreeSimple.cfg', alt=True, num=3000, depth=60, shards=4, thorough=dict(num=20000, shards=7, timeout=800)),
    gen('JsonSimpleDeep', 'JsonTree', cfg='JsonDeepSimple.cfg', alt=True, num=450, depth=120, shards=2, thorough=dict(num=2000, shards=7, timeout=800)),
], technique='TLA+/TLC specification of the simple form; every generated tree converted and compared entry by entry')
check('C21', [
    gen('SoundsExh', 'Sounds', mode='bfs'),
    gen('SoundsBig', 'Sounds', num=20, depth=10, shards=2, thorough=dict(num=200)),
    gen('SoundsSim', 'Sounds', num=1500, depth=20, shards=4, thorough=dict(num=9000, shards=7, timeout=800)),
], technique='TLA+/TLC payload specification; generated sounds, raw data and videos extracted and saved byte by byte')
check('C22', [
    gen('ScriptsShort', 'Scripts', num=7500, depth=5, shards=3, thorough=dict(num=40000, shards=7, timeout=800)),
    gen('ScriptsLong', 'Scripts', num=300, depth=5, shards=2, thorough=dict(num=1500, shards=7, timeout=800)),
], technique='TLA+/TLC specification of scripts and text images (keys, UTF-8, ranges); generated images, intact and damaged, opened and extracted')
def pkg2_after(m, work, st, outs): return m.validate_traces(work, st, outs, 'Pkg2Trace')
check('C13', [
    gen('Pkg2Keys', 'Pkg2Keys', num=450, depth=3, shards=2, alt=True, after=pkg2_after, thorough=dict(num=8000, shards=4)),
    gen('Pkg2Sim', 'Pkg2Gen', num=220, depth=80, shards=4, alt=True, thorough=dict(num=1500, shards=6, timeout=800)),
    gen('Pkg2BruteFew', 'Pkg2Keys', mode='bfs', alt=True, nproc=1, case_secs=120, after=pkg2_after, thorough=dict(skip=True)),
    gen('Pkg2Brute', 'Pkg2Keys', mode='bfs', alt=True, nproc=1, case_secs=200, after=pkg2_after, skip=True, thorough=dict(skip=False)),
    gen('Pkg2Detect', 'Pkg2Gen', num=1, depth=80, shards=6, nproc=1, case_secs=200, thorough=dict(num=4, total=1500)),
], technique='TLA+/TLC archive specification (stored hashes, name keys, offset masks, entry counts); enumerated keys validated by a trace specification, generated archives opened with remembered profiles and by detection')
check('C14', [
    gen('MsGen', 'MsGen', num=90, depth=12, shards=6, case_secs=30, alt=True, thorough=dict(num=900, shards=8)),
    gen('MsMany', 'MsGen', num=12, depth=45, shards=2, case_secs=30, thorough=dict(num=120, shards=8)),
], technique='TLA+/TLC specification of both pack generations (SNOW 2.0 and ChaCha20 included); generated packs replayed into the parser, packs under other names and with other salts refused')
check('C20', [gen('FolderSim', 'Folder', alt=True, num=360, depth=60, shards=5, thorough=dict(num=4000, shards=7, timeout=800))],
      technique='TLA+/TLC folder specification; generated folders written out, listed in several orders (readdir interposed), resolved and compared node by node')

def lock_after(m, work, st, outs):
    """TLC searches the recorded lock footprints for threads that block one another for ever"""
    import json, os, re
    tf = os.path.join(work, st['name'] + '_traces.ndjson')
    with open(tf, 'w') as f: f.write(''.join(json.dumps(o) + '\n' for _, o in outs))
    if not outs: return [], 0, []
    r = m.tlc(work, st['name'] + '_net', 'LockNet', 'LockNet.cfg', ['-workers', '4'], env=dict(TRACES=tf), timeout=400)
    if r['ok']: return [], len(outs), [r]
    c = re.search(r'<<\s*"CYCLE", (\d+), ', r['out']); w = re.search(r'<<\s*"WHO",(.*?)>>\s*(?:FALSE|Error|\n\S*Invariant|$)', r['out'], re.S)
    if not c: raise m.Machinery(f"LockNet failed rc={r['rc']}:\n{m.tlc_tail(r['out'])}")
    case = outs[int(c.group(1)) - 1][0]
    return [(case, 'threads can block one another for ever: ' + re.sub(r'\s+', ' ', w.group(1) if w else '')[:900])], len(outs), [r]
check('C06', [
    model('LockModel_down', 'LockModel', thorough=dict(skip=True)), model('LockModel_root', 'LockModel', thorough=dict(skip=True)), model('LockModel_walk', 'LockModel', thorough=dict(skip=True)),
    model('LockModel_few', 'LockModel', workers=2),
    model('LockModel_down4', 'LockModel', skip=True, workers=8, thorough=dict(skip=False, timeout=850, heap='8g')), model('LockModel_root4', 'LockModel', skip=True, workers=8, thorough=dict(skip=False, timeout=850, heap='8g')), model('LockModel_walk4', 'LockModel', skip=True, thorough=dict(skip=False, timeout=850)),
    gen('ConcLocks', 'Conc', num=25, depth=120, shards=2, after=lock_after, case_secs=60, thorough=dict(num=150, shards=6)),
    gen('ConcSched', 'Conc', num=900, depth=130, shards=4, case_secs=40, thorough=dict(num=12000, shards=6)),
    gen('ConcDead', 'Conc', num=4, depth=130, case_secs=40),
], technique='TLA+/TLC: lock protocol model-checked in every interleaving; the locks every real operation holds while it waits are recorded and searched for deadlocks by TLC; generated schedules replayed with chosen locks held')
check('C23', [
    gen('DamageExh', 'Damage', mode='bfs', shards=6),
    gen('DamageSim', 'Damage', num=120, depth=60, shards=6, thorough=dict(num=2500, shards=8, timeout=800)),
    gen('DamagePkg', 'DamagePkg', num=130, depth=40, shards=6, thorough=dict(num=3000, shards=8, timeout=800)),
    gen('DamagePkg2', 'DamagePkg2', num=25, depth=60, shards=6, thorough=dict(num=600, shards=8, timeout=800)),
    gen('DamageMs', 'DamageMs', num=5, depth=30, shards=6, thorough=dict(num=120, shards=8, timeout=800)),
    gen('CanvasSim', 'CanvasGen', num=120, depth=8, shards=4, thorough=dict(num=3000, shards=7)),
    gen('DeepNest', 'DeepNest', mode='bfs'),
], technique='TLA+/TLC reader specification of images, archives and packs applied to every cut and every byte change of small inputs and to random damage of larger ones; the implementation may fail or show exactly that')
