"""Model of xml.etree.ElementTree: elements are records of tag, attributes, text, children.
Trusted: serialising a tree and parsing it back gives the same tree up to white space
around text and between elements."""
from .vals import *
from . import engine as E_


def make(en):
    Ext, EC = E_.Ext, E_.ExtClass
    el = EC('Element')

    def new(e, tag):
        return e.alloc('inst', E_.InstS(el, {'tag': tag, 'attrib': e.mkdict({}), 'text': None, 'tail': None,
                                             '_children': e.mklist(())}))

    def meth(name, f):
        x = Ext('Element.' + name, f)
        x.method = True
        el.attrs[name] = x

    def set_(e, a, k):
        kk, v = a[1], a[2]
        d = e.st(a[0]).attrs['attrib']
        e.setitem(d, kk, v)

    def get_(e, a, k):
        d = e.st(e.st(a[0]).attrs['attrib']).d
        return d.get(a[1], a[2] if len(a) > 2 else None)

    def append(e, a, k):
        ch = e.st(a[0]).attrs['_children']
        e.call(e.getattr(ch, 'append'), [a[1]], {})

    def it(e, a, k): return e.st(a[0]).attrs['_children']
    def find(e, a, k):
        for c in e.st(it(e, a, k)).items:
            if e.truth(e.equal(e.st(c).attrs['tag'], a[1])): return c
        return None
    meth('set', set_)
    meth('get', get_)
    meth('append', append)
    meth('__iter__', it)
    meth('__len__', lambda e, a, k: len(e.st(it(e, a, k)).items))
    meth('__getitem__', lambda e, a, k: e.getitem(it(e, a, k), a[1]))
    meth('getchildren', it)
    meth('find', find)
    meth('findall', lambda e, a, k: e.mklist([c for c in e.st(it(e, a, k)).items
                                              if e.truth(e.equal(e.st(c).attrs['tag'], a[1]))]))
    meth('items', lambda e, a, k: e.mklist(list(e.st(e.st(a[0]).attrs['attrib']).d.items())))
    meth('keys', lambda e, a, k: e.mklist(list(e.st(e.st(a[0]).attrs['attrib']).d)))

    def element(e, a, k): return new(e, a[0])

    def sub_element(e, a, k):
        c = new(e, a[1])
        append(e, [a[0], c], {})
        return c
    tree = EC('ElementTree', None, lambda e, a, k: e.alloc('inst', E_.InstS(tree, {'_root': a[0]})))
    gr = Ext('getroot', lambda e, a, k: e.st(a[0]).attrs['_root'])
    gr.method = True
    tree.attrs['getroot'] = gr
    en.elementClass, en.treeClass = el, tree
    el.call = element

    def tostring(e, a, k): return e.fs.xml_of(e, a[0])

    def parse(e, a, k):
        root = e.fs.xml_parse(e, a[0])
        return e.alloc('inst', E_.InstS(tree, {'_root': root}))
    return E_.ExtMod('ElementTree', {'Element': el, 'SubElement': Ext('SubElement', sub_element),
                                     'ElementTree': tree, 'tostring': Ext('tostring', tostring),
                                     'parse': Ext('parse', parse)})


def parse_string(e, a, k): return e.fs.minidom(e, a[0])
