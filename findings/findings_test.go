package modbus

// One demonstration per repaired defect: each test fails on the original tree
// (commit 2ecb8a1) and passes with the repair. Run with ./run.sh [REPO].

import (
	"bytes"
	"errors"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/goburrow/serial"
)

// port is a serial port or connection that answers with fixed bytes.
type fPort struct {
	mu       sync.Mutex
	in       []byte
	chunk    int
	writeErr error
	readErr  error
	written  []byte
	reads    int
	closed   int
}

func (p *fPort) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.reads++
	if len(p.in) == 0 {
		if p.readErr != nil {
			return 0, p.readErr
		}
		return 0, io.EOF
	}
	n := len(b)
	if p.chunk > 0 && n > p.chunk {
		n = p.chunk
	}
	n = copy(b[:n], p.in)
	p.in = p.in[n:]
	return n, nil
}

func (p *fPort) Write(b []byte) (int, error) {
	if p.writeErr != nil {
		return 0, p.writeErr
	}
	p.written = append(p.written, b...)
	return len(b), nil
}
func (p *fPort) Close() error                     { p.closed++; return nil }
func (p *fPort) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (p *fPort) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (p *fPort) SetDeadline(time.Time) error      { return nil }
func (p *fPort) SetReadDeadline(time.Time) error  { return nil }
func (p *fPort) SetWriteDeadline(time.Time) error { return nil }

// fTimeout is what a timed out read returns.
type fTimeout struct{}

func (fTimeout) Error() string   { return "timeout" }
func (fTimeout) Timeout() bool   { return true }
func (fTimeout) Temporary() bool { return true }

// fSend is a transport that records the request and returns a fixed reply.
type fSend struct {
	ClientProvider
	req ProtocolDataUnit
	rsp ProtocolDataUnit
}

func (p *fSend) Send(_ byte, r ProtocolDataUnit) (ProtocolDataUnit, error) {
	p.req = r
	return p.rsp, nil
}

func noPanic(t *testing.T, f func()) {
	t.Helper()
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("panic: %v", e)
		}
	}()
	f()
}

func rtuFrame(b ...byte) []byte {
	c := CRC16(b)
	return append(b, byte(c), byte(c>>8))
}

func fWait(t *testing.T, d time.Duration, what string, f func() bool) {
	t.Helper()
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return
		}
	}
	t.Errorf("not in time: %s", what)
}

func isExc(err error, code byte) bool {
	e, ok := err.(*ExceptionError)
	return ok && e.ExceptionCode == code
}

// fServer starts a server on the loopback interface.
func fServer(t *testing.T, nodes ...*NodeRegister) (*TCPServer, string) {
	t.Helper()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	addr := l.Addr().String()
	l.Close()
	s := NewTCPServer()
	s.AddNodes(nodes...)
	go s.ListenAndServe(addr)
	fWait(t, 3*time.Second, "listening", func() bool {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
		}
		return err == nil
	})
	return s, addr
}

func bank() *NodeRegister { return NewNodeRegister(1, 0, 100, 0, 100, 0, 100, 0, 100) }

func TestAB851F9_T08_ASCIIWriteSucceeds(t *testing.T) {
	p := NewASCIIClientProvider()
	p.port = &fPort{in: []byte(":010301AA51\r\n")}
	r, err := p.SendRawFrame([]byte(":010300000001FB\r\n"))
	if err != nil || string(r) != ":010301AA51\r\n" {
		t.Errorf("%q %v", r, err)
	}
}

func Test707E3DB_P01_ASCIIOversizedPDU(t *testing.T) {
	noPanic(t, func() {
		f := newPool(asciiCharacterMaxSize).get()
		if _, err := f.encodeASCIIFrame(1, ProtocolDataUnit{3, make([]byte, 253)}); err == nil {
			t.Error("a PDU of 254 bytes was framed")
		}
	})
}

func Test9C41F6E_P01_RTUShortRequest(t *testing.T) {
	noPanic(t, func() {
		p := NewRTUClientProvider()
		p.port = &fPort{}
		if _, err := p.SendRawFrame([]byte{1}); err == nil {
			t.Error("accepted")
		}
		p.port = &fPort{}
		p.SendPdu(1, []byte{3})
	})
}

func Test26118A4_T06_RTUFIFO(t *testing.T) {
	rsp := rtuFrame(1, 0x18, 0, 6, 0, 2, 1, 0xB8, 0x12, 0x84)
	p := NewRTUClientProvider()
	p.port = &fPort{in: rsp, chunk: 4}
	r, err := NewClient(p).ReadFIFOQueue(1, 0x4DE)
	if err != nil || !bytes.Equal(r, []byte{1, 0xB8, 0x12, 0x84}) {
		t.Errorf("% x %v", r, err)
	}
}

func Test39B2AD4_C03_ReadWriteQuantity(t *testing.T) {
	p := &fSend{rsp: ProtocolDataUnit{FuncCodeReadWriteMultipleRegisters, []byte{2, 0, 1}}}
	if r, err := NewClient(p).ReadWriteMultipleRegistersBytes(1, 0, 3, 0, 1, []byte{0, 0}); err == nil {
		t.Errorf("one register accepted for three: % x", r)
	}
}

func Test28C3DE6_C03_FIFOCount(t *testing.T) {
	p := &fSend{rsp: ProtocolDataUnit{FuncCodeReadFIFOQueue, []byte{0, 4, 0, 5, 1, 2}}}
	if r, err := NewClient(p).ReadFIFOQueue(1, 0); err == nil {
		t.Errorf("count 5 accepted for one word: % x", r)
	}
}

func Test8A231EC_C02_WriteCoilsPayload(t *testing.T) {
	p := &fSend{rsp: ProtocolDataUnit{FuncCodeWriteMultipleCoils, []byte{0, 0, 0, 3}}}
	if err := NewClient(p).WriteMultipleCoils(1, 0, 3, []byte{1, 2, 3}); err == nil {
		if want := []byte{0, 0, 0, 3, 1, 1}; !bytes.Equal(p.req.Data, want) {
			t.Errorf("sent % x want % x", p.req.Data, want)
		}
	}
}

func Test20FAB70_P02_OversizedLength(t *testing.T) {
	noPanic(t, func() {
		s, addr := fServer(t, bank())
		defer s.Close()
		c, err := net.Dial("tcp", addr)
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		c.Write([]byte{0, 1, 0, 0, 0xFF, 0xFF, 1})
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		if _, err := c.Read(make([]byte, 1)); err != io.EOF {
			t.Errorf("connection not closed: %v", err)
		}
	})
}

func Test467E649_V02_OtherProtocolKeepsSession(t *testing.T) {
	s, addr := fServer(t, bank())
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	go func() {
		for {
			if _, err := c.Write([]byte{0, 1, 0, 9, 0, 2, 1}); err != nil {
				return
			}
		}
	}()
	time.Sleep(100 * time.Millisecond)
	done := make(chan struct{})
	go func() { s.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Error("Close does not return while the peer keeps sending")
	}
}

func Test8E84F40_S01_PlainHandlerError(t *testing.T) {
	s, addr := fServer(t, bank())
	defer s.Close()
	s.RegisterFunctionHandler(0x41, func(*NodeRegister, []byte) ([]byte, error) { return nil, errors.New("x") })
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.Write([]byte{0, 1, 0, 0, 0, 2, 1, 0x41})
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	b := make([]byte, 9)
	if _, err := io.ReadFull(c, b); err != nil || b[7] != 0xC1 {
		t.Errorf("% x %v", b, err)
	}
}

func Test49B46F1_P03_RangeWraps(t *testing.T) {
	n := NewNodeRegister(1, 0, 10, 0, 10, 0, 10, 0, 10)
	noPanic(t, func() {
		if _, err := n.ReadHoldings(65535, 2); err == nil {
			t.Error("range over 65535 accepted")
		}
		if _, err := n.ReadCoils(65535, 2); err == nil {
			t.Error("range over 65535 accepted")
		}
	})
}

func TestBF9DE40_R03_ManyCoils(t *testing.T) {
	n := NewNodeRegister(1, 0, 40000, 0, 40000, 0, 0, 0, 0)
	b := bytes.Repeat([]byte{0xFF}, 5000)
	if err := n.WriteCoils(0, 40000, b); err != nil {
		t.Fatal(err)
	}
	if r, err := n.ReadCoils(0, 40000); err != nil || !bytes.Equal(r, b) {
		t.Errorf("%d bytes back, %v", len(r), err)
	}
}

func Test9062ED4_R01_ManyWords(t *testing.T) {
	n := NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 10)
	if err := n.WriteHoldings(0, make([]uint16, 65536)); err == nil {
		t.Error("65536 registers accepted by a bank of 10")
	}
	if err := n.WriteHoldingsBytes(0, 0x8000, nil); err == nil {
		t.Error("no bytes accepted for 32768 registers")
	}
}

func TestF33C63D_R02_MaskWriteStart(t *testing.T) {
	n := NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 100, 10)
	noPanic(t, func() {
		if err := n.MaskWriteHolding(105, 0, 0x1234); err != nil {
			t.Error(err)
		}
	})
	if len(n.holding) > 5 && n.holding[5] != 0x1234 {
		t.Errorf("%x", n.holding)
	}
}

func Test4DAE555_S03_ByteCount(t *testing.T) {
	n := bank()
	for _, c := range []struct {
		f FunctionHandler
		d []byte
	}{
		{funcWriteMultiCoils, []byte{0, 0, 0, 9, 2, 1}},
		{funcWriteMultiHoldingRegisters, []byte{0, 0, 0, 2, 4, 0, 1}},
		{funcReadWriteMultiHoldingRegisters, []byte{0, 0, 0, 1, 0, 0, 0, 2, 4, 0, 1}},
	} {
		noPanic(t, func() {
			if _, err := c.f(n, c.d); !isExc(err, ExceptionCodeIllegalDataValue) {
				t.Errorf("% x: %v", c.d, err)
			}
		})
	}
}

func Test476726C_S05_ReadWriteWritesFirst(t *testing.T) {
	n := NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 10)
	_, err := funcReadWriteMultiHoldingRegisters(n, []byte{0, 50, 0, 1, 0, 0, 0, 1, 2, 0, 7})
	if err == nil || n.holding[0] != 0 {
		t.Errorf("%v, register 0 is %d", err, n.holding[0])
	}
}

// the next tests need the race detector

func Test5CE25B8_L03_HandlerTable(t *testing.T) {
	s, addr := fServer(t, bank())
	defer s.Close()
	c := NewClient(NewTCPClientProvider(addr))
	if err := c.Connect(); err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			s.RegisterFunctionHandler(0x41, funcReadCoils)
		}
	}()
	for i := 0; i < 200; i++ {
		c.ReadCoils(1, 0, 1)
	}
	wg.Wait()
}

func Test9390E6C_L03_AddNodes(t *testing.T) {
	s := newServerCommon()
	n := bank()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); n.SetSlaveID(2) }()
	s.AddNodes(n)
	wg.Wait()
}

func TestC41ADD6_L03_LogMode(t *testing.T) {
	p := NewTCPClientProvider("")
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 100; i++ {
			p.LogMode(false)
		}
	}()
	for i := 0; i < 100; i++ {
		p.Debugf("x")
	}
	wg.Wait()
}

func TestFDD291D_V03_CloseCountsSessions(t *testing.T) {
	for i := 0; i < 30; i++ {
		s, addr := fServer(t, bank())
		go func() {
			for j := 0; j < 20; j++ {
				if c, err := net.Dial("tcp", addr); err == nil {
					c.Close()
				}
			}
		}()
		s.Close()
	}
}

func Test67E4BA3_V01_RefusedConnectionClosed(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	s := NewTCPServerSpecial().EnableAutoReconnect(false)
	s.SetOnConnectHandler(func(*TCPServerSpecial) error { return errors.New("no") })
	s.SetReconnectInterval(time.Minute)
	s.AddRemoteServer(l.Addr().String())
	s.Start()
	defer s.Close()
	c, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	if _, err := c.Read(make([]byte, 1)); err != io.EOF {
		t.Errorf("refused connection still open: %v", err)
	}
}

func TestACC8DCF_V06_CloseAfterStart(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	for i := 0; i < 50; i++ {
		s := NewTCPServerSpecial()
		s.AddRemoteServer(l.Addr().String())
		s.SetReadTimeout(100 * time.Millisecond)
		s.SetReconnectInterval(100 * time.Millisecond)
		s.Start()
		s.Close()
		fWait(t, 2*time.Second, "closed", s.IsClosed)
		time.Sleep(5 * time.Millisecond)
		if !s.IsClosed() {
			t.Fatal("running although closed")
		}
	}
}

func TestAD8EEE2_L03_UnderlyingConn(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	s := NewTCPServerSpecial().EnableAutoReconnect(false)
	s.AddRemoteServer(l.Addr().String())
	s.Start()
	defer s.Close()
	for i := 0; i < 200 && s.UnderlyingConn() == nil; i++ {
		time.Sleep(time.Millisecond)
	}
}

func Test57D6DF0_V06_NoReconnect(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	s := NewTCPServerSpecial().EnableAutoReconnect(false)
	s.AddRemoteServer(l.Addr().String())
	s.Start()
	defer s.Close()
	c, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
	l.(*net.TCPListener).SetDeadline(time.Now().Add(2 * time.Second))
	if c, err := l.Accept(); err == nil {
		c.Close()
		t.Error("reconnected although auto reconnect is off")
	}
}

func tcpClient(p *fPort) *TCPClientProvider {
	c := NewTCPClientProvider("127.0.0.1:1")
	c.conn = p
	return c
}

func TestF34D4EE_V05_WriteFailureCloses(t *testing.T) {
	c := tcpClient(&fPort{writeErr: errors.New("broken pipe")})
	if _, err := c.SendRawFrame(make([]byte, 12)); err == nil || c.IsConnected() {
		t.Errorf("%v, connected %v", err, c.IsConnected())
	}
}

func TestE18E8C8_V05_MidFrameCloses(t *testing.T) {
	c := tcpClient(&fPort{in: []byte{0, 1, 0, 0}, readErr: fTimeout{}})
	if _, err := c.SendRawFrame(make([]byte, 12)); err == nil || c.IsConnected() {
		t.Errorf("header cut off: %v, connected %v", err, c.IsConnected())
	}
	c = tcpClient(&fPort{in: []byte{0, 1, 0, 0, 0, 5, 1, 3}, readErr: fTimeout{}})
	if _, err := c.SendRawFrame(make([]byte, 12)); err == nil || c.IsConnected() {
		t.Errorf("body cut off: %v, connected %v", err, c.IsConnected())
	}
}

func Test87EB27C_V05_InvalidLengthCloses(t *testing.T) {
	for _, l := range []byte{0, 0xFF} {
		c := tcpClient(&fPort{in: []byte{0, 1, 0, 0, l, 0, 1, 3}, readErr: fTimeout{}})
		if _, err := c.SendRawFrame(make([]byte, 12)); err == nil || c.IsConnected() {
			t.Errorf("length %d: %v, connected %v", l, err, c.IsConnected())
		}
	}
}

func TestEFA7276_K01_SerialDefaults(t *testing.T) {
	want := serial.Config{Address: "/dev/ttyS0", BaudRate: 19200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: time.Second}
	if got := NewRTUClientProvider().Config; got != want {
		t.Errorf("RTU: %+v", got)
	}
	if got := NewASCIIClientProvider().Config; got != want {
		t.Errorf("ASCII: %+v", got)
	}
}

// Two sessions use function 23 on the same register: each must read what it wrote.
func Test05034A6_S09_ReadWriteAtomic(t *testing.T) {
	node := NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 1)
	var wg sync.WaitGroup
	for s := byte(1); s <= 4; s++ {
		wg.Add(1)
		go func(s byte) {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				v, err := funcReadWriteMultiHoldingRegisters(node, []byte{0, 0, 0, 1, 0, 0, 0, 1, 2, 0, s})
				if err != nil || !bytes.Equal(v, []byte{2, 0, s}) {
					t.Errorf("wrote %d, answered %v, %v", s, v, err)
					return
				}
			}
		}(s)
	}
	wg.Wait()
}

func Test8241053_T03_LengthZero(t *testing.T) {
	if _, _, err := decodeTCPFrame(make([]byte, 65542)); err == nil {
		t.Fatal("a frame of 65542 bytes with a length field of zero is accepted")
	}
}
