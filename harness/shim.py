import inspect, sys, functools, types
def get_annotations(obj, *, globals=None, locals=None, eval_str=False):
    if isinstance(obj, type):
        d = obj.__dict__.get('__annotations__'); ann = d if isinstance(d, dict) else None
        g = None
        m = sys.modules.get(getattr(obj,'__module__',None))
        g = getattr(m,'__dict__',None); l = dict(vars(obj)); unwrap=obj
    elif isinstance(obj, types.ModuleType):
        ann = getattr(obj,'__annotations__',None); g = obj.__dict__; l=None; unwrap=None
    else:
        ann = getattr(obj,'__annotations__',None); g = getattr(obj,'__globals__',None); l=None; unwrap=obj
    if not ann: return {}
    if not eval_str: return dict(ann)
    if unwrap is not None:
        while True:
            if hasattr(unwrap,'__wrapped__'): unwrap=unwrap.__wrapped__; continue
            if isinstance(unwrap, functools.partial): unwrap=unwrap.func; continue
            break
        if hasattr(unwrap,'__globals__'): g = unwrap.__globals__
    if globals is None: globals = g
    if locals is None: locals = l
    if tp := getattr(obj,'__type_params__',()):
        locals = {p.__name__: p for p in tp} | (locals or {})
    return {k: (eval(v, globals, locals) if isinstance(v,str) else v) for k,v in ann.items()}
inspect.get_annotations = get_annotations
