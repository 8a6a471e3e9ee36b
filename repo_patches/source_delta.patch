From ab851f936a0ff82455c27ed060007aed3148acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:27 +0000
Subject: [PATCH 01/30] fix: ASCII client gave up on every request whose write
 succeeded

---
 client_ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_ascii.go b/client_ascii.go
index f47abea..dfe088a 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -175,7 +175,7 @@ func (sf *ASCIIClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []by
 	sf.Debugf("sending [% x]", aduRequest)
 
 	_, err = sf.port.Write(aduRequest)
-	if err == nil {
+	if err != nil {
 		sf.close()
 		return
 	}
-- 
2.43.0


From 707e3db8b3004ee1559f63060817f11bda2cac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:28 +0000
Subject: [PATCH 02/30] fix: ASCII encoder panicked on a PDU one byte over the
 limit

---
 modbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus.go b/modbus.go
index 946798d..ccca52a 100644
--- a/modbus.go
+++ b/modbus.go
@@ -70,7 +70,7 @@ const (
 	rtuAduMaxSize = 256 // address(1) + PDU(253) + crc(2)
 
 	asciiAduMinSize       = 3
-	asciiAduMaxSize       = 256
+	asciiAduMaxSize       = 255 // address(1) + PDU(253) + lrc(1)
 	asciiCharacterMaxSize = 513
 
 	tcpProtocolIdentifier = 0x0000
-- 
2.43.0


From 9c41f6efca509f1b111b941c5ef1ef987dfc279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 03/30] fix: RTU client panicked on requests too short to hold
 a quantity

---
 client_rtu.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index c0501d8..b791778 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -121,6 +121,10 @@ func (sf *RTUClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 
 // SendRawFrame send Adu frame
 func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
+	if len(aduRequest) < rtuAduMinSize {
+		return nil, fmt.Errorf("modbus: request length '%v' does not meet minimum '%v'", len(aduRequest), rtuAduMinSize)
+	}
+
 	sf.mu.Lock()
 	defer sf.mu.Unlock()
 
@@ -196,6 +200,9 @@ func (sf *RTUClientProvider) calculateDelay(chars int) time.Duration {
 
 func calculateResponseLength(adu []byte) int {
 	length := rtuAduMinSize
+	if len(adu) < rtuAduMinSize+2 { // too short to hold a quantity
+		return length
+	}
 	switch adu[1] {
 	case FuncCodeReadDiscreteInputs,
 		FuncCodeReadCoils:
-- 
2.43.0


From 26118a4bf56a7ece211184a3a33f2fb2c4051963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:30 +0000
Subject: [PATCH 04/30] fix: RTU client read only the first bytes of a FIFO
 queue response

---
 client_rtu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index b791778..b0ae1f9 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -158,6 +158,9 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	case data[1] == function:
 		// if the function is correct
 		// we read the rest of the bytes
+		if function == FuncCodeReadFIFOQueue { // only the response tells its length
+			bytesToRead = rtuAduMinSize + 2 + int(binary.BigEndian.Uint16(data[2:]))
+		}
 		if n < bytesToRead {
 			if bytesToRead > rtuAduMinSize && bytesToRead <= rtuAduMaxSize {
 				if bytesToRead > n {
-- 
2.43.0


From 39b2ad48db5bda6c627b118a6f2a7262d9cb618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 05/30] fix: read/write multiple registers accepted a reply of
 the wrong quantity

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 5823a4c..90ab84f 100644
--- a/client.go
+++ b/client.go
@@ -500,6 +500,10 @@ func (sf *client) ReadWriteMultipleRegistersBytes(slaveID byte, readAddress, rea
 		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	}
+	if uint16(response.Data[0]) != readQuantity*2 {
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+			response.Data[0], readQuantity*2)
+	}
 	return response.Data[1:], nil
 }
 
-- 
2.43.0


From 28c3de6ef3ff169919cb6b8eb0b355cfd19b5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 06/30] fix: read FIFO queue accepted a reply whose FIFO count
 contradicts its data

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 90ab84f..5715b7c 100644
--- a/client.go
+++ b/client.go
@@ -560,6 +560,9 @@ func (sf *client) ReadFIFOQueue(slaveID byte, address uint16) ([]byte, error) {
 	case int(binary.BigEndian.Uint16(response.Data[2:])) > 31:
 		return nil, fmt.Errorf("modbus: fifo count '%v' is greater than expected '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), 31)
+	case len(response.Data)-4 != int(binary.BigEndian.Uint16(response.Data[2:]))*2:
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match fifo count '%v'",
+			len(response.Data)-4, binary.BigEndian.Uint16(response.Data[2:]))
 	}
 	return response.Data[4:], nil
 }
-- 
2.43.0


From 8a231eceb2deb6e21d2de9cd236de8b291edb9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:32 +0000
Subject: [PATCH 07/30] fix: write multiple coils sent a byte count that
 contradicts its quantity

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 5715b7c..43d1ad1 100644
--- a/client.go
+++ b/client.go
@@ -188,7 +188,7 @@ func (sf *client) WriteMultipleCoils(slaveID byte, address, quantity uint16, val
 
 	response, err := sf.Send(slaveID, ProtocolDataUnit{
 		FuncCode: FuncCodeWriteMultipleCoils,
-		Data:     pduDataBlockSuffix(value, address, quantity),
+		Data:     pduDataBlockSuffix(value[:(quantity+7)/8], address, quantity),
 	})
 
 	switch {
-- 
2.43.0


From 20fab70f4e926a088768f80d5ee3cf488bc85164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:33 +0000
Subject: [PATCH 08/30] fix: an oversized length in a request header crashed
 the TCP server

---
 server_tcp_session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 839275d..b453cef 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -71,6 +71,10 @@ func (sf *ServerSession) running(ctx context.Context) {
 					continue
 				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
+				if length > tcpAduMaxSize {
+					err = fmt.Errorf("request length '%v' must not be bigger than '%v'", length, tcpAduMaxSize)
+					return
+				}
 				if rdCnt == length {
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
-- 
2.43.0


From 467e6492ae554a6881bb239bcffd9ae9905231f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:34 +0000
Subject: [PATCH 09/30] fix: a peer sending frames of another protocol kept its
 session alive after close

---
 server_tcp_session.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index b453cef..8475893 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -33,15 +33,15 @@ func (sf *ServerSession) running(ctx context.Context) {
 
 	raw := make([]byte, tcpAduMaxSize)
 	for {
-		select {
-		case <-ctx.Done():
-			err = errors.New("server active close")
-			return
-		default:
-		}
-
 		adu := raw
 		for rdCnt, length := 0, tcpHeaderMbapSize; rdCnt < length; {
+			select {
+			case <-ctx.Done():
+				err = errors.New("server active close")
+				return
+			default:
+			}
+
 			err = sf.conn.SetReadDeadline(time.Now().Add(sf.readTimeout))
 			if err != nil {
 				return
-- 
2.43.0


From 8e84f40b579fa9d55ca2f2c597bff3e6e64911f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 10/30] fix: a request got no response when its handler
 returned a plain error

---
 server_tcp_session.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 8475893..c54303b 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -116,7 +116,11 @@ func (sf *ServerSession) frameHandler(requestAdu []byte) error {
 	}
 	if err != nil {
 		funcCode |= 0x80
-		rspPduData = []byte{err.(*ExceptionError).ExceptionCode}
+		exception, ok := err.(*ExceptionError)
+		if !ok {
+			exception = &ExceptionError{ExceptionCodeServerDeviceFailure}
+		}
+		rspPduData = []byte{exception.ExceptionCode}
 	}
 
 	// prepare responseAdu data,fill it
-- 
2.43.0


From 49b46f1462cc6024ae82709125e27dea8d7e26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:36 +0000
Subject: [PATCH 11/30] fix: register bank accepted ranges that wrap past
 address 65535

---
 register.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/register.go b/register.go
index 6bed37c..8fd373e 100644
--- a/register.go
+++ b/register.go
@@ -123,7 +123,7 @@ func setBits(buf []byte, start, nBits uint16, value byte) {
 func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
 	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
 		nCoils := int16(quality)
 		for idx := 0; nCoils > 0; idx++ {
@@ -155,7 +155,7 @@ func (sf *NodeRegister) WriteSingleCoil(address uint16, val bool) error {
 func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
 		nCoils := int16(quality)
 		result := make([]byte, 0, (quality+7)/8)
@@ -187,7 +187,7 @@ func (sf *NodeRegister) ReadSingleCoil(address uint16) (bool, error) {
 func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
 	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
 		nCoils := int16(quality)
 		for idx := 0; nCoils > 0; idx++ {
@@ -219,7 +219,7 @@ func (sf *NodeRegister) WriteSingleDiscrete(address uint16, val bool) error {
 func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
 		nCoils := int16(quality)
 		result := make([]byte, 0, (quality+7)/8)
@@ -250,9 +250,9 @@ func (sf *NodeRegister) ReadSingleDiscrete(address uint16) (bool, error) {
 // WriteHoldingsBytes 写保持寄存器
 func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf) == int(quality*2) &&
+	if len(valBuf) == int(quality)*2 &&
 		(address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(valBuf)
@@ -272,7 +272,7 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 	quality := uint16(len(valBuf))
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		copy(sf.holding[start:end], valBuf)
@@ -287,7 +287,7 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -306,7 +306,7 @@ func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, erro
 func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -321,9 +321,9 @@ func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error)
 // WriteInputsBytes 写输入寄存器
 func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte) error {
 	sf.rw.Lock()
-	if len(regBuf) == int(quality*2) &&
+	if len(regBuf) == int(quality)*2 &&
 		(address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(regBuf)
@@ -343,7 +343,7 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 	quality := uint16(len(valBuf))
 	sf.rw.Lock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		copy(sf.input[start:end], valBuf)
@@ -358,7 +358,7 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -377,7 +377,7 @@ func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error)
 func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -393,7 +393,7 @@ func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error {
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + 1) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+1 <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		sf.holding[address] &= andMask
 		sf.holding[address] |= orMask & ^andMask
 		sf.rw.Unlock()
-- 
2.43.0


From bf9de40ed128652f620810bd814eb5b960e7c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 12/30] fix: register bank skipped bit ranges longer than 32767

---
 register.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/register.go b/register.go
index 8fd373e..3423c57 100644
--- a/register.go
+++ b/register.go
@@ -125,7 +125,7 @@ func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error
 	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
 		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -157,7 +157,7 @@ func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	if (address >= sf.coilsAddrStart) &&
 		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		result := make([]byte, 0, (quality+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
@@ -189,7 +189,7 @@ func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) e
 	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
 		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -221,7 +221,7 @@ func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	if (address >= sf.discreteAddrStart) &&
 		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		result := make([]byte, 0, (quality+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
-- 
2.43.0


From 9062ed4b9c4c772e792aeb96ea64d480bd960de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:16 +0000
Subject: [PATCH 13/30] fix: register bank truncated a write of more than 65535
 registers

---
 register.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/register.go b/register.go
index 3423c57..052628a 100644
--- a/register.go
+++ b/register.go
@@ -269,11 +269,11 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 
 // WriteHoldings 写保持寄存器
 func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
-		start := address - sf.holdingAddrStart
+		(int(address)+quality <= int(sf.holdingAddrStart)+len(sf.holding)) {
+		start := int(address - sf.holdingAddrStart)
 		end := start + quality
 		copy(sf.holding[start:end], valBuf)
 		sf.rw.Unlock()
@@ -340,11 +340,11 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 
 // WriteInputs 写输入寄存器
 func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
 	if (address >= sf.inputAddrStart) &&
-		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
-		start := address - sf.inputAddrStart
+		(int(address)+quality <= int(sf.inputAddrStart)+len(sf.input)) {
+		start := int(address - sf.inputAddrStart)
 		end := start + quality
 		copy(sf.input[start:end], valBuf)
 		sf.rw.Unlock()
-- 
2.43.0


From f33c63da0fe5f9e03ab3ad704235f1b1254260e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:17 +0000
Subject: [PATCH 14/30] fix: mask write ignored the start address of the
 holding registers

---
 register.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/register.go b/register.go
index 052628a..58edcd4 100644
--- a/register.go
+++ b/register.go
@@ -394,8 +394,9 @@ func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
 		(int(address)+1 <= int(sf.holdingAddrStart)+len(sf.holding)) {
-		sf.holding[address] &= andMask
-		sf.holding[address] |= orMask & ^andMask
+		idx := address - sf.holdingAddrStart
+		sf.holding[idx] &= andMask
+		sf.holding[idx] |= orMask & ^andMask
 		sf.rw.Unlock()
 		return nil
 	}
-- 
2.43.0


From 4dae5552d579e032d0927b00f46aa0e2c14fcdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 15/30] fix: write requests whose byte count contradicts their
 data were not refused as illegal data

---
 function.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/function.go b/function.go
index 7cddfd1..7a24255 100644
--- a/function.go
+++ b/function.go
@@ -186,7 +186,7 @@ func funcWriteMultiCoils(reg *NodeRegister, data []byte) ([]byte, error) {
 	quality := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if quality < WriteBitsQuantityMin || quality > WriteBitsQuantityMax ||
-		byteCnt != byte((quality+7)/8) {
+		byteCnt != byte((quality+7)/8) || len(data) != FuncWriteMultiMinSize+int(byteCnt) {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 	err := reg.WriteCoils(address, quality, data[5:])
@@ -279,7 +279,7 @@ func funcWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte, err
 	count := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if count < WriteRegQuantityMin || count > WriteRegQuantityMax ||
-		uint16(byteCnt) != count*2 {
+		uint16(byteCnt) != count*2 || len(data) != FuncWriteMultiMinSize+int(byteCnt) {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
@@ -314,7 +314,7 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 	writeByteCnt := data[8]
 	if readCount < ReadWriteOnReadRegQuantityMin || readCount > ReadWriteOnReadRegQuantityMax ||
 		WriteCount < ReadWriteOnWriteRegQuantityMin || WriteCount > ReadWriteOnWriteRegQuantityMax ||
-		uint16(writeByteCnt) != WriteCount*2 {
+		uint16(writeByteCnt) != WriteCount*2 || len(data) != FuncReadWriteMinSize+int(writeByteCnt) {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
-- 
2.43.0


From 476726c7023a8a797e52e391c36a403d65a920d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:19 +0000
Subject: [PATCH 16/30] fix: read/write multiple registers wrote before
 refusing an illegal read address

---
 function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/function.go b/function.go
index 7a24255..416ceaa 100644
--- a/function.go
+++ b/function.go
@@ -318,6 +318,10 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
+	// an illegal address to read must leave the registers as they are
+	if _, err := reg.ReadHoldingsBytes(readAddress, readCount); err != nil {
+		return nil, err
+	}
 	if err := reg.WriteHoldingsBytes(writeAddress, WriteCount, data[9:]); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5ce25b80166cce6d68d0a0e74dd0858d248a1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 17/30] fix: registering a function handler raced with sessions
 being served

---
 function.go           | 11 +++++++++++
 server_tcp_session.go |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/function.go b/function.go
index 416ceaa..993003b 100644
--- a/function.go
+++ b/function.go
@@ -21,6 +21,7 @@ type FunctionHandler func(reg *NodeRegister, data []byte) ([]byte, error)
 
 type serverCommon struct {
 	node     sync.Map
+	mux      sync.RWMutex // guards function
 	function map[uint8]FunctionHandler
 }
 
@@ -90,10 +91,20 @@ func (sf *serverCommon) Range(f func(slaveID byte, node *NodeRegister) bool) {
 // RegisterFunctionHandler 注册回调函数.
 func (sf *serverCommon) RegisterFunctionHandler(funcCode uint8, function FunctionHandler) {
 	if function != nil {
+		sf.mux.Lock()
 		sf.function[funcCode] = function
+		sf.mux.Unlock()
 	}
 }
 
+// functionHandler 获取功能码对应的回调函数.
+func (sf *serverCommon) functionHandler(funcCode uint8) (FunctionHandler, bool) {
+	sf.mux.RLock()
+	handle, ok := sf.function[funcCode]
+	sf.mux.RUnlock()
+	return handle, ok
+}
+
 // readBits 读位寄存器.
 func readBits(reg *NodeRegister, data []byte, isCoil bool) ([]byte, error) {
 	var value []byte
diff --git a/server_tcp_session.go b/server_tcp_session.go
index c54303b..4534ed8 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -109,7 +109,7 @@ func (sf *ServerSession) frameHandler(requestAdu []byte) error {
 		return nil
 	}
 	var rspPduData []byte
-	if handle, ok := sf.function[funcCode]; ok {
+	if handle, ok := sf.functionHandler(funcCode); ok {
 		rspPduData, err = handle(node, pduData)
 	} else {
 		err = &ExceptionError{ExceptionCodeIllegalFunction}
-- 
2.43.0


From 9390e6c4e16ee8730f89e5662407b0b8cc237cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 18/30] fix: adding a node raced with changing its slave id

---
 function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function.go b/function.go
index 993003b..5678523 100644
--- a/function.go
+++ b/function.go
@@ -45,7 +45,7 @@ func newServerCommon() *serverCommon {
 // AddNodes 增加节点.
 func (sf *serverCommon) AddNodes(nodes ...*NodeRegister) {
 	for _, v := range nodes {
-		sf.node.Store(v.slaveID, v)
+		sf.node.Store(v.SlaveID(), v)
 	}
 }
 
-- 
2.43.0


From c41add6a1911c534b89ae5461b8c4125ac808549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:21 +0000
Subject: [PATCH 19/30] fix: switching the log mode raced with logging

---
 log.go                | 4 ++--
 server_tcp.go         | 2 +-
 server_tcp_session.go | 2 +-
 server_tcp_special.go | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/log.go b/log.go
index 7a52e22..946c81d 100644
--- a/log.go
+++ b/log.go
@@ -40,14 +40,14 @@ func (sf *logger) setLogProvider(p LogProvider) {
 }
 
 // Error Log ERROR level message.
-func (sf logger) Errorf(format string, v ...interface{}) {
+func (sf *logger) Errorf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Errorf(format, v...)
 	}
 }
 
 // Debug Log DEBUG level message.
-func (sf logger) Debugf(format string, v ...interface{}) {
+func (sf *logger) Debugf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Debugf(format, v...)
 	}
diff --git a/server_tcp.go b/server_tcp.go
index 4249550..a0e7012 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -102,7 +102,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 				sf.readTimeout,
 				sf.writeTimeout,
 				sf.serverCommon,
-				sf.logger,
+				&sf.logger,
 			}
 			sess.running(ctx)
 			sf.wg.Done()
diff --git a/server_tcp_session.go b/server_tcp_session.go
index 4534ed8..b495448 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -17,7 +17,7 @@ type ServerSession struct {
 	readTimeout  time.Duration
 	writeTimeout time.Duration
 	*serverCommon
-	logger
+	*logger
 }
 
 // handler net conn
diff --git a/server_tcp_special.go b/server_tcp_special.go
index 818c9bb..7408b8f 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -55,12 +55,13 @@ type TCPServerSpecial struct {
 
 // NewTCPServerSpecial new tcp server special, default enable auto reconnect
 func NewTCPServerSpecial() *TCPServerSpecial {
+	lg := newLogger("modbusTCPServerSpec => ")
 	return &TCPServerSpecial{
 		ServerSession: ServerSession{
 			readTimeout:  TCPDefaultReadTimeout,
 			writeTimeout: TCPDefaultWriteTimeout,
 			serverCommon: newServerCommon(),
-			logger:       newLogger("modbusTCPServerSpec => "),
+			logger:       &lg,
 		},
 		autoReconnect:     true,
 		enableKeepAlive:   false,
-- 
2.43.0


From fdd291d531bf85c868dca3e5d84d16dd5912f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:22 +0000
Subject: [PATCH 20/30] fix: server close could return before a session just
 accepted

---
 server_tcp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server_tcp.go b/server_tcp.go
index a0e7012..14b3dc7 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -95,7 +95,14 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 			return err
 		}
 		tempDelay = minTempDelay
+		sf.mu.Lock()
+		if sf.listen == nil { // closed meanwhile
+			sf.mu.Unlock()
+			conn.Close()
+			continue
+		}
 		sf.wg.Add(1)
+		sf.mu.Unlock()
 		go func() {
 			sess := &ServerSession{
 				conn,
-- 
2.43.0


From 67e4ba342ca7c21005951652fc72c1fd2325aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:23 +0000
Subject: [PATCH 21/30] fix: a connection refused by the connect handler was
 never closed

---
 server_tcp_special.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 7408b8f..6041da0 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -208,6 +208,7 @@ func (sf *TCPServerSpecial) run() {
 		sf.Debugf("connect success")
 		sf.conn = conn
 		if err := sf.onConnect(sf); err != nil {
+			conn.Close()
 			time.Sleep(sf.reconnectInterval)
 			continue
 		}
-- 
2.43.0


From acc8dcffe56220eda9fd35e818b5555e77307f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:24 +0000
Subject: [PATCH 22/30] fix: closing a special server right after its start was
 lost

---
 server_tcp_special.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 6041da0..bf6185c 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -167,21 +167,21 @@ func (sf *TCPServerSpecial) Start() error {
 	if sf.server == nil {
 		return errors.New("empty remote server address,add it first")
 	}
-	go sf.run()
-	return nil
-}
-
-// 增加间隔
-func (sf *TCPServerSpecial) run() {
 	var ctx context.Context
 
 	sf.rwMux.Lock()
 	if !atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) {
 		sf.rwMux.Unlock()
-		return
+		return nil
 	}
 	ctx, sf.cancel = context.WithCancel(context.Background())
 	sf.rwMux.Unlock()
+	go sf.run(ctx)
+	return nil
+}
+
+// 增加间隔
+func (sf *TCPServerSpecial) run(ctx context.Context) {
 	defer func() {
 		sf.setConnectStatus(initial)
 		sf.Debugf("tcp server special stop!")
-- 
2.43.0


From ad8eee2d65d8d9f239318ece042027252157c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:25 +0000
Subject: [PATCH 23/30] fix: reading the underlying connection raced with
 reconnecting

---
 server_tcp_special.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index bf6185c..91cc418 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -76,7 +76,10 @@ func NewTCPServerSpecial() *TCPServerSpecial {
 
 // UnderlyingConn got underlying tcp conn
 func (sf *TCPServerSpecial) UnderlyingConn() net.Conn {
-	return sf.conn
+	sf.rwMux.RLock()
+	conn := sf.conn
+	sf.rwMux.RUnlock()
+	return conn
 }
 
 // SetConnectTimeout set tcp connect the host timeout
@@ -206,7 +209,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 			continue
 		}
 		sf.Debugf("connect success")
+		sf.rwMux.Lock()
 		sf.conn = conn
+		sf.rwMux.Unlock()
 		if err := sf.onConnect(sf); err != nil {
 			conn.Close()
 			time.Sleep(sf.reconnectInterval)
-- 
2.43.0


From 57d6df0ddac184b6f067696c7a9c8d624c36d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:26 +0000
Subject: [PATCH 24/30] fix: a lost connection was reconnected with auto
 reconnect disabled

---
 server_tcp_special.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 91cc418..7838703 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -214,6 +214,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.rwMux.Unlock()
 		if err := sf.onConnect(sf); err != nil {
 			conn.Close()
+			if !sf.autoReconnect {
+				return
+			}
 			time.Sleep(sf.reconnectInterval)
 			continue
 		}
@@ -240,6 +243,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.setConnectStatus(disconnected)
 		sf.onConnectionLost(sf)
 		close(stopKeepAlive)
+		if !sf.autoReconnect {
+			return
+		}
 		select {
 		case <-ctx.Done():
 			return
-- 
2.43.0


From f34d4eee2731279d37f1cd517fe22ac4d7d5a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:27 +0000
Subject: [PATCH 25/30] fix: TCP client kept a connection it could not write to

---
 client_tcp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client_tcp.go b/client_tcp.go
index 7330b42..b655a63 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -225,6 +225,7 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	}
 
 	if _, err = sf.conn.Write(aduRequest); err != nil {
+		sf.close()
 		return
 	}
 
-- 
2.43.0


From e18e8c8f3bd1f4d096ba5e456519ff383011cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:27 +0000
Subject: [PATCH 26/30] fix: TCP client kept using a connection left in the
 middle of a response

---
 client_tcp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client_tcp.go b/client_tcp.go
index b655a63..2715837 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -244,7 +244,7 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 		if e, ok := err.(net.Error); (ok && !e.Temporary() && !e.Timeout()) ||
 			(err != io.EOF && err == io.ErrClosedPipe) ||
 			strings.Contains(err.Error(), "use of closed network connection") ||
-			(cnt == 0 && err == io.EOF) {
+			(cnt == 0 && err == io.EOF) || cnt > 0 {
 			sf.close()
 		}
 		return
@@ -274,6 +274,7 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	// Skip unit id
 	length += tcpHeaderMbapSize - 1
 	if _, err = io.ReadFull(sf.conn, data[tcpHeaderMbapSize:length]); err != nil {
+		sf.close()
 		return
 	}
 	aduResponse = data[:length]
-- 
2.43.0


From 87eb27c4c96da812a8f8efda20b678d1881a3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 27/30] fix: TCP client kept a connection whose response
 framing was lost

---
 client_tcp.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/client_tcp.go b/client_tcp.go
index 2715837..395f7e8 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -254,11 +254,11 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	length := int(binary.BigEndian.Uint16(data[4:]))
 	switch {
 	case length <= 0:
-		_ = sf.flush(data[:])
+		sf.close()
 		err = fmt.Errorf("modbus: length in response header '%v' must not be zero", length)
 		return
 	case length > (tcpAduMaxSize - (tcpHeaderMbapSize - 1)):
-		_ = sf.flush(data[:])
+		sf.close()
 		err = fmt.Errorf("modbus: length in response header '%v' must not greater than '%v'",
 			length, tcpAduMaxSize-tcpHeaderMbapSize+1)
 		return
@@ -335,19 +335,3 @@ func (sf *TCPClientProvider) setSerialConfig(serial.Config) {}
 func (sf *TCPClientProvider) setTCPTimeout(t time.Duration) {
 	sf.timeout = t
 }
-
-// flush flushes pending data in the connection,
-// returns io.EOF if connection is closed.
-func (sf *TCPClientProvider) flush(b []byte) (err error) {
-	if err = sf.conn.SetReadDeadline(time.Now()); err != nil {
-		return
-	}
-	// timeout setting will be reset when reading
-	if _, err = sf.conn.Read(b); err != nil {
-		// Ignore timeout error
-		if netError, ok := err.(net.Error); ok && netError.Timeout() {
-			err = nil
-		}
-	}
-	return
-}
-- 
2.43.0


From efa727669e7699e67219ab42732fe28aaf7aeb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:44 +0000
Subject: [PATCH 28/30] fix: serial clients lacked the documented default
 configuration

---
 client_ascii.go |  5 +++--
 client_rtu.go   |  5 +++--
 serial.go       | 12 ++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/client_ascii.go b/client_ascii.go
index dfe088a..6003749 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -29,8 +29,9 @@ var asciiPool = newPool(asciiCharacterMaxSize)
 // it will use default /dev/ttyS0 19200 8 1 N and timeout 1000.
 func NewASCIIClientProvider(opts ...ClientProviderOption) *ASCIIClientProvider {
 	p := &ASCIIClientProvider{
-		logger: newLogger("modbusASCIIMaster => "),
-		pool:   asciiPool,
+		serialPort: serialPort{Config: defaultSerialConfig()},
+		logger:     newLogger("modbusASCIIMaster => "),
+		pool:       asciiPool,
 	}
 	for _, opt := range opts {
 		opt(p)
diff --git a/client_rtu.go b/client_rtu.go
index b0ae1f9..30aa6f6 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -28,8 +28,9 @@ var rtuPool = newPool(rtuAduMaxSize)
 // it will use default /dev/ttyS0 19200 8 1 N and timeout 1000
 func NewRTUClientProvider(opts ...ClientProviderOption) *RTUClientProvider {
 	p := &RTUClientProvider{
-		logger: newLogger("modbusRTUMaster => "),
-		pool:   rtuPool,
+		serialPort: serialPort{Config: defaultSerialConfig()},
+		logger:     newLogger("modbusRTUMaster => "),
+		pool:       rtuPool,
 	}
 	for _, opt := range opts {
 		opt(p)
diff --git a/serial.go b/serial.go
index 5ae500f..259ad2d 100644
--- a/serial.go
+++ b/serial.go
@@ -19,6 +19,18 @@ type serialPort struct {
 	port io.ReadWriteCloser
 }
 
+// defaultSerialConfig is the config in use unless another one is set: /dev/ttyS0 19200 8 1 N
+func defaultSerialConfig() serial.Config {
+	return serial.Config{
+		Address:  "/dev/ttyS0",
+		BaudRate: 19200,
+		DataBits: 8,
+		StopBits: 1,
+		Parity:   "N",
+		Timeout:  SerialDefaultTimeout,
+	}
+}
+
 // Connect try to connect the remote server
 func (sf *serialPort) Connect() (err error) {
 	sf.mu.Lock()
-- 
2.43.0


From 05034a646ded22bcd2c2a26469e9e8f95cead5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:40 +0000
Subject: [PATCH 29/30] fix: a read/write request was not atomic towards other
 sessions

---
 function.go |  9 +--------
 register.go | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/function.go b/function.go
index 5678523..813e38d 100644
--- a/function.go
+++ b/function.go
@@ -329,14 +329,7 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
-	// an illegal address to read must leave the registers as they are
-	if _, err := reg.ReadHoldingsBytes(readAddress, readCount); err != nil {
-		return nil, err
-	}
-	if err := reg.WriteHoldingsBytes(writeAddress, WriteCount, data[9:]); err != nil {
-		return nil, err
-	}
-	value, err := reg.ReadHoldingsBytes(readAddress, readCount)
+	value, err := reg.readWriteHoldingsBytes(readAddress, readCount, writeAddress, WriteCount, data[9:])
 	if err != nil {
 		return nil, err
 	}
diff --git a/register.go b/register.go
index 58edcd4..e3e245a 100644
--- a/register.go
+++ b/register.go
@@ -318,6 +318,28 @@ func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error)
 	return nil, &ExceptionError{ExceptionCodeIllegalDataAddress}
 }
 
+// readWriteHoldingsBytes 写保持寄存器后读保持寄存器,其间没有其它访问
+func (sf *NodeRegister) readWriteHoldingsBytes(readAddress, readQuality, writeAddress, writeQuality uint16,
+	valBuf []byte) ([]byte, error) {
+	sf.rw.Lock()
+	defer sf.rw.Unlock()
+	start, size := int(sf.holdingAddrStart), len(sf.holding)
+	read, write := int(readAddress)-start, int(writeAddress)-start
+	if len(valBuf) != int(writeQuality)*2 ||
+		read < 0 || read+int(readQuality) > size ||
+		write < 0 || write+int(writeQuality) > size {
+		return nil, &ExceptionError{ExceptionCodeIllegalDataAddress}
+	}
+	for i := 0; i < int(writeQuality); i++ {
+		sf.holding[write+i] = binary.BigEndian.Uint16(valBuf[i*2:])
+	}
+	value := make([]byte, int(readQuality)*2)
+	for i := 0; i < int(readQuality); i++ {
+		binary.BigEndian.PutUint16(value[i*2:], sf.holding[read+i])
+	}
+	return value, nil
+}
+
 // WriteInputsBytes 写输入寄存器
 func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte) error {
 	sf.rw.Lock()
-- 
2.43.0


From 82410536642907888fc6d25dc2c0a60d172c4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:09 +0000
Subject: [PATCH 30/30] fix: TCP decoder took a frame of 65542 bytes for one of
 length zero

---
 client_tcp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client_tcp.go b/client_tcp.go
index 395f7e8..e9f707f 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -113,9 +113,9 @@ func decodeTCPFrame(adu []byte) (protocolTCPHeader, []byte, error) {
 	}
 
 	pduLength := len(adu) - tcpHeaderMbapSize
-	if pduLength != int(head.length-1) {
+	if pduLength != int(head.length)-1 {
 		return head, nil, fmt.Errorf("modbus: length in response '%v' does not match pdu data length '%v'",
-			head.length-1, pduLength)
+			int(head.length)-1, pduLength)
 	}
 	// The first byte after header is function code
 	return head, adu[tcpHeaderMbapSize:], nil
-- 
2.43.0

