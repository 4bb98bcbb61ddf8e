# Generates byteio/byteio.go (run by hand when the stand-in changes; the output is committed).
out=['''// Package byteio is an offline stand-in for vimagination.zapto.org/byteio v1.0.0,
// written from the way limage uses that module (the module itself cannot be
// fetched here). Generated by ../gen_byteio.py.
package byteio

import (
	"io"
	"math"
)
''']
sizes=[8,16,24,32,40,48,56,64]
def gotype(n): return 'uint%d'%(8 if n==8 else 16 if n==16 else 32 if n<=32 else 64)
def put(n,end):
    k=n//8; r=[]
    for i in range(k):
        sh=8*(k-1-i) if end=='Big' else 8*i
        r.append('b[%d] = byte(d >> %d)'%(i,sh) if sh else 'b[%d] = byte(d)'%i)
    return '\n\t'.join(r)
def get(n,end):
    k=n//8;t=gotype(n);r=[]
    for i in range(k):
        sh=8*(k-1-i) if end=='Big' else 8*i
        r.append('%s(b[%d])<<%d'%(t,i,sh) if sh else '%s(b[%d])'%(t,i))
    return ' | '.join(r)
for end in('Big','Little'):
    for sticky in(False,True):
        pre='Sticky' if sticky else ''
        R='%s%sEndianReader'%(pre,end); W='%s%sEndianWriter'%(pre,end)
        extra='''
	Err    error
	Count  int64''' if sticky else ''
        out.append('// %s reads %s endian values.\ntype %s struct {\n\tio.Reader\n\tbuffer [9]byte%s\n}\n'%(R,end.lower(),R,extra))
        out.append('// %s writes %s endian values.\ntype %s struct {\n\tio.Writer\n\tbuffer [9]byte%s\n}\n'%(W,end.lower(),W,extra))
        if sticky:
            out.append('''// Read implements io.Reader.
func (e *%s) Read(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}

func (e *%s) fill(n int) []byte {
	if e.Err != nil {
		return nil
	}

	m, err := io.ReadFull(e.Reader, e.buffer[:n])
	e.Count += int64(m)
	e.Err = err

	if err != nil {
		return nil
	}

	return e.buffer[:n]
}

// Write implements io.Writer.
func (e *%s) Write(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}

// GetError returns the sticky error.
func (e *%s) GetError() error { return e.Err }

// GetError returns the sticky error.
func (e *%s) GetError() error { return e.Err }

// GetCount returns the number of bytes read.
func (e *%s) GetCount() int64 { return e.Count }

// GetCount returns the number of bytes written.
func (e *%s) GetCount() int64 { return e.Count }
'''%(R,R,W,R,W,R,W))
        else:
            out.append('''func (e *%s) fill(n int) ([]byte, int, error) {
	m, err := io.ReadFull(e.Reader, e.buffer[:n])

	return e.buffer[:n], m, err
}
'''%R)
        for n in sizes:
            t=gotype(n); st=t[1:]; ext=int(t[4:])-n
            if sticky:
                out.append('// ReadUint%d reads a %d bit value.\nfunc (e *%s) ReadUint%d() %s {\n\tb := e.fill(%d)\n\tif b == nil {\n\t\treturn 0\n\t}\n\n\treturn %s\n}\n'%(n,n,R,n,t,n//8,get(n,end)))
                conv='%s(e.ReadUint%d())'%(st,n) if ext==0 else '%s(e.ReadUint%d()<<%d) >> %d'%(st,n,ext,ext)
                out.append('// ReadInt%d reads a signed %d bit value.\nfunc (e *%s) ReadInt%d() %s { return %s }\n'%(n,n,R,n,st,conv))
                out.append('// WriteUint%d writes a %d bit value.\nfunc (e *%s) WriteUint%d(d %s) {\n\tif e.Err != nil {\n\t\treturn\n\t}\n\n\tb := e.buffer[:%d]\n\t%s\n\te.Write(b)\n}\n'%(n,n,W,n,t,n//8,put(n,end)))
                out.append('// WriteInt%d writes a signed %d bit value.\nfunc (e *%s) WriteInt%d(d %s) { e.WriteUint%d(%s(d)) }\n'%(n,n,W,n,st,n,t))
            else:
                out.append('// ReadUint%d reads a %d bit value.\nfunc (e *%s) ReadUint%d() (%s, int, error) {\n\tb, n, err := e.fill(%d)\n\tif err != nil {\n\t\treturn 0, n, err\n\t}\n\n\treturn %s, n, nil\n}\n'%(n,n,R,n,t,n//8,get(n,end)))
                conv='%s(v)'%st if ext==0 else '%s(v<<%d) >> %d'%(st,ext,ext)
                out.append('// ReadInt%d reads a signed %d bit value.\nfunc (e *%s) ReadInt%d() (%s, int, error) {\n\tv, n, err := e.ReadUint%d()\n\n\treturn %s, n, err\n}\n'%(n,n,R,n,st,n,conv))
                out.append('// WriteUint%d writes a %d bit value.\nfunc (e *%s) WriteUint%d(d %s) (int, error) {\n\tb := e.buffer[:%d]\n\t%s\n\n\treturn e.Writer.Write(b)\n}\n'%(n,n,W,n,t,n//8,put(n,end)))
                out.append('// WriteInt%d writes a signed %d bit value.\nfunc (e *%s) WriteInt%d(d %s) (int, error) { return e.WriteUint%d(%s(d)) }\n'%(n,n,W,n,st,n,t))
        for n in(32,64):
            if sticky:
                out.append('// ReadFloat%d reads a float.\nfunc (e *%s) ReadFloat%d() float%d { return math.Float%dfrombits(e.ReadUint%d()) }\n'%(n,R,n,n,n,n))
                out.append('// WriteFloat%d writes a float.\nfunc (e *%s) WriteFloat%d(d float%d) { e.WriteUint%d(math.Float%dbits(d)) }\n'%(n,W,n,n,n,n))
            else:
                out.append('// ReadFloat%d reads a float.\nfunc (e *%s) ReadFloat%d() (float%d, int, error) {\n\tv, n, err := e.ReadUint%d()\n\n\treturn math.Float%dfrombits(v), n, err\n}\n'%(n,R,n,n,n,n))
                out.append('// WriteFloat%d writes a float.\nfunc (e *%s) WriteFloat%d(d float%d) (int, error) { return e.WriteUint%d(math.Float%dbits(d)) }\n'%(n,W,n,n,n,n))
        if sticky:
            out.append('// ReadBool reads a boolean.\nfunc (e *%s) ReadBool() bool { return e.ReadUint8() != 0 }\n'%R)
            out.append('// WriteBool writes a boolean.\nfunc (e *%s) WriteBool(d bool) {\n\tif d {\n\t\te.WriteUint8(1)\n\t} else {\n\t\te.WriteUint8(0)\n\t}\n}\n'%W)
            out.append('// ReadBytes reads n bytes.\nfunc (e *%s) ReadBytes(n int) []byte {\n\tif e.Err != nil {\n\t\treturn nil\n\t}\n\n\tb := make([]byte, n)\n\tm, err := io.ReadFull(e.Reader, b)\n\te.Count += int64(m)\n\te.Err = err\n\n\treturn b[:m]\n}\n'%R)
            out.append('// ReadString reads a string of n bytes.\nfunc (e *%s) ReadString(n int) string { return string(e.ReadBytes(n)) }\n'%R)
            out.append('// WriteString writes a string.\nfunc (e *%s) WriteString(s string) (int, error) { return e.Write([]byte(s)) }\n'%W)
open('byteio/byteio.go','w').write('\n'.join(out))
