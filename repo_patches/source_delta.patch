From 4f8ff50fdca493ca38f0c4caa515a19f7951834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 01/34] fix: Package.Decode panics on a header length field out
 of range

---
 libs/egts/egts_pkg.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c40d6cb..763f93b 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -101,6 +101,10 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	if p.HeaderLength < DEFAULT_HEADER_LEN || int(p.HeaderLength) > len(content) {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
@@ -130,7 +134,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	bodyEnd := int(p.HeaderLength) + int(p.FrameDataLength)
+	if bodyEnd > len(content) {
+		return egtsPcInvdatalen, fmt.Errorf("Не верная длина тела пакета: %d", p.FrameDataLength)
+	}
+
+	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:bodyEnd]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 81abde4b303e85b659d8db9cad5d59932d784173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 02/34] fix: receiver panics on a header length below 10 and
 misframes packets above 65535 bytes

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e21f310..92d4361 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -94,9 +94,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Не корректная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From 0f461fd04df83ce9cbb66248c961c2fa4554e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 03/34] fix: the accept loop spins forever after Stop

---
 cli/receiver/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 92d4361..010b2ff 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -36,6 +37,9 @@ func (s *Server) Run() {
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := s.l.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return
+		}
 		if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
-- 
2.43.0


From 8087fec6af28686997498931d8b9d4fc804487ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 04/34] fix: the connection lifetime is never enforced and
 delays closing finished connections

---
 cli/receiver/server/server.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 010b2ff..b838f41 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -56,7 +56,34 @@ func (s *Server) Stop() error {
 	return nil
 }
 
+// ttlConn соединение, в котором каждая операция чтения и записи ограничена временем жизни ttl (0 - не ограничена)
+type ttlConn struct {
+	net.Conn
+	ttl time.Duration
+}
+
+func (c ttlConn) Read(b []byte) (int, error) {
+	if c.ttl > 0 {
+		_ = c.Conn.SetReadDeadline(time.Now().Add(c.ttl))
+	}
+	return c.Conn.Read(b)
+}
+
+func (c ttlConn) Write(b []byte) (int, error) {
+	if c.ttl > 0 {
+		_ = c.Conn.SetWriteDeadline(time.Now().Add(c.ttl))
+	}
+
+	n, err := c.Conn.Write(b)
+	if ne, ok := err.(net.Error); ok && ne.Timeout() {
+		// ответ мог уйти частично, продолжать обмен нельзя
+		_ = c.Conn.Close()
+	}
+	return n, err
+}
+
 func (s *Server) handleConn(conn net.Conn) {
+	conn = ttlConn{conn, s.ttl}
 	defer conn.Close()
 
 	var (
@@ -80,16 +107,12 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResultCodePkg = nil
 		recvPacket = nil
 
-		connTimer := time.NewTimer(s.ttl)
-
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
 		_, err := io.ReadFull(conn, headerBuf)
 
 		switch err {
 		case nil:
-			connTimer.Reset(s.ttl)
-
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
 				log.WithField("ip", conn.RemoteAddr()).Warn("Пакет не соответствует формату ЕГТС. Закрыто соединение")
@@ -116,8 +139,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			// формируем полный пакет
 			recvPacket = append(headerBuf, buf...)
 		case io.EOF:
-			<-connTimer.C
-			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+			log.WithField("ip", conn.RemoteAddr()).Info("Соединение закрыто клиентом")
 			return
 		default:
 			log.WithField("err", err).Error("Ошибка при получении")
-- 
2.43.0


From 68323e1d019888f9e1f2940fda5b9a92061b8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 05/34] fix: a packet whose record could not be stored is
 acknowledged as processed

---
 cli/receiver/server/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index b838f41..96a4cd0 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -13,8 +13,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -323,6 +324,8 @@ func (s *Server) handleConn(conn net.Conn) {
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+					resultCode = egtsPcIoError
+					srResponsesRecord = nil
 				}
 			}
 
-- 
2.43.0


From 5a4000b67f263b8e958c179012cde6d295921e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 06/34] fix: a data packet with a record response is dropped
 with its positions and never answered

---
 cli/receiver/server/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 96a4cd0..08a17aa 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -204,7 +204,6 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
 					case *egts.SrTermIdentity:
 						log.Debug("Разбор подзаписи EGTS_SR_TERM_IDENTITY")
 						// fmt.Printf("Разбор подзаписи EGTS_SR_TERM_IDENTITY: %+v\n\n", subRecData)
-- 
2.43.0


From fc4b19ec69dec062ad8f81d960b4a46428ce21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 07/34] fix: the authorisation result code is sent with the
 packet type of a response

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 08a17aa..591b99a 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -441,7 +441,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From ac146ff44c4f600c0d6af396f85e7aa5dd156aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 08/34] fix: the record number of counters 110 and 111 is put
 together in the wrong byte order

---
 cli/receiver/server/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 591b99a..8794d16 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -281,8 +281,8 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							binary.LittleEndian.PutUint32(packetIDBytes, subRecData.CounterValue|uint32(packetIDBytes[3])<<24)
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
 							tmpBuf := make([]byte, 4)
-- 
2.43.0


From 5ae037511a1f0f2039f97d116b479e568f348f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 09/34] fix: positions of the southern and western hemispheres
 are stored without their sign

---
 cli/receiver/server/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 8794d16..a71e3af 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -224,6 +224,14 @@ func (s *Server) handleConn(conn net.Conn) {
 						// exportPacket.Speed = subRecData.Speed
 						// exportPacket.Course = subRecData.Direction
 
+						// широта и долгота передаются по модулю, полушарие - в флагах
+						if subRecData.LAHS == "1" {
+							subRecData.Latitude = -subRecData.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							subRecData.Longitude = -subRecData.Longitude
+						}
+
 						locData := storage.LocState{
 							Latitude:     subRecData.Latitude,
 							Longitude:    subRecData.Longitude,
-- 
2.43.0


From 6c1156673dca0d9e8226ce9965cb8684ce497a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 10/34] fix: positions are stored under the object id of a
 later record without positions

---
 cli/receiver/server/server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index a71e3af..2024dbd 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -193,8 +193,6 @@ func (s *Server) handleConn(conn net.Conn) {
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
 
-				exportPacket.ClientID = rec.ObjectIdentifier
-
 				for _, subRec := range rec.RecordDataSet {
 					switch subRecData := subRec.SubrecordData.(type) {
 					case *egts.SrAuthInfo:
@@ -218,6 +216,7 @@ func (s *Server) handleConn(conn net.Conn) {
 							log.Debugf("Разбор подзаписи EGTS_SR_POS_DATA")
 						}
 
+						exportPacket.ClientID = rec.ObjectIdentifier
 						exportPacket.NavigationTimestamp = subRecData.NavigationTime.Unix()
 						// exportPacket.Latitude = subRecData.Latitude
 						// exportPacket.Longitude = subRecData.Longitude
-- 
2.43.0


From 6b16cc4b9cbe9060415953302ae960063043247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 11/34] fix: a wrong body checksum is reported as a header one,
 and only after parsing the body

---
 libs/egts/egts_pkg.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 763f93b..c3e6a33 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -113,6 +113,20 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	if _, err = buf.Read(dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
+	crcBytes := make([]byte, 2)
+	if _, err = buf.Read(crcBytes); err != nil {
+		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
+	}
+	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
+
+	bodyEnd := int(p.HeaderLength) + int(p.FrameDataLength)
+	if bodyEnd > len(content) {
+		return egtsPcInvdatalen, fmt.Errorf("Не верная длина тела пакета: %d", p.FrameDataLength)
+	}
+
+	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:bodyEnd]) {
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+	}
 	switch p.PacketType {
 	case PtAppdataPacket:
 		p.ServicesFrameData = &ServiceDataSet{}
@@ -127,21 +141,6 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	if err = p.ServicesFrameData.Decode(dataFrameBytes); err != nil {
 		return egtsPcDecryptError, err
 	}
-
-	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
-		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
-	}
-	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
-
-	bodyEnd := int(p.HeaderLength) + int(p.FrameDataLength)
-	if bodyEnd > len(content) {
-		return egtsPcInvdatalen, fmt.Errorf("Не верная длина тела пакета: %d", p.FrameDataLength)
-	}
-
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:bodyEnd]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
-	}
 	return egtsPcOk, err
 }
 
-- 
2.43.0


From 44ec236f0297e90950d996c72ca0627737c7a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 12/34] fix: a failed redis publish panics and brings the
 receiver down

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index a7f2ae0..2706701 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -73,7 +73,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {
-		panic(err)
+		return fmt.Errorf("Не удалось отправить сообщение: %v", err)
 	}
 
 	return nil
-- 
2.43.0


From ab9ef7f715e6f8aed908e492e2ae9471ec80d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 13/34] fix: redis storage without the optional db setting
 cannot be initialised

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 2706701..e732b09 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 5755ded799abfd1b454f369c054e1b7b8b140f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 14/34] fix: documented connection lifetime setting is not the
 one that is read

---
 README.md             | 2 +-
 configs/receiver.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 943dc2a..c720f90 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From b7f4c5167fc049df037081d5a306d04386003d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 15/34] fix: a record is not offered to the storages after the
 first failing one

---
 cli/receiver/storage/store.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index a0b0127..2b9aa4e 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,14 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var firstErr error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		// сбой одного хранилища не должен лишать записи остальные
+		if err := store.Save(m); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From c9ab0d7c44b3965924f3e61c849a86022cd35ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 16/34] fix: which storages are loaded depends on map order
 once one of them fails

---
 cli/receiver/storage/store.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index 2b9aa4e..b283526 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -62,8 +62,9 @@ func (r *Repository) LoadStorages(storages map[string]map[string]string) error {
 		return InvalidStorage
 	}
 
-	var db Store
+	var firstErr error
 	for store, params := range storages {
+		var db Store
 		switch store {
 		case "rabbitmq":
 			db = &rabbitmq.Connector{}
@@ -78,16 +79,23 @@ func (r *Repository) LoadStorages(storages map[string]map[string]string) error {
 		case "redis":
 			db = &redis.Connector{}
 		default:
-			return UnknownStorage
+			if firstErr == nil {
+				firstErr = UnknownStorage
+			}
+			continue
 		}
 
+		// одно неисправное хранилище не должно отключать остальные
 		if err := db.Init(params); err != nil {
-			return err
+			if firstErr == nil {
+				firstErr = err
+			}
+			continue
 		}
 
 		r.AddStore(db)
 	}
-	return nil
+	return firstErr
 }
 
 //NewRepository создает пустой репозиторий
-- 
2.43.0


From c5834bb79836ec6fd343b8d5edeea3b930c4709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 17/34] fix: nats storage confirms records that never reached
 the server and gives up reconnecting

---
 cli/receiver/storage/store/nats/connector.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 54a6dab..eec72cc 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -13,8 +13,12 @@ topic = "receiver"
 import (
 	"fmt"
 	natsLib "github.com/nats-io/nats.go"
+	"time"
 )
 
+// flushTimeout время ожидания подтверждения приема сообщения сервером
+const flushTimeout = 5 * time.Second
+
 type Connector struct {
 	connection *natsLib.Conn
 	config     map[string]string
@@ -31,6 +35,9 @@ func (c *Connector) Init(cfg map[string]string) error {
 
 	var options = make([]natsLib.Option, 3)
 
+	// недоступность шины не должна навсегда отключать хранилище
+	options = append(options, natsLib.MaxReconnects(-1))
+
 	options = append(options, natsLib.Name(fmt.Sprintf("EGTS handler, topic: %s", c.config["topic"])))
 
 	if user, uOk := c.config["user"]; uOk {
@@ -55,9 +62,18 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	reconnects := c.connection.Stats().Reconnects
 	if err = c.connection.Publish(c.config["topic"], innerPkg); err != nil {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
 	}
+
+	// Publish только ставит сообщение в очередь отправки, дожидаемся приема сервером
+	if err = c.connection.FlushTimeout(flushTimeout); err != nil {
+		return fmt.Errorf("Не удалось подтвердить отправку сообщения в топик: %v", err)
+	}
+	if c.connection.Stats().Reconnects != reconnects {
+		return fmt.Errorf("Соединение прервалось во время отправки сообщения в топик")
+	}
 	return nil
 }
 
-- 
2.43.0


From df5d3c196a59f5aac700a285d6065dd72464d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 18/34] fix: rabbitmq storage confirms records the broker never
 got and never reconnects

---
 .../storage/store/rabbitmq/connector.go       | 59 +++++++++++++++++--
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..f495a73 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,33 +16,55 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"sync"
+	"time"
 )
 
+// confirmTimeout время ожидания подтверждения публикации от брокера
+const confirmTimeout = 10 * time.Second
+
 type Connector struct {
+	mu         sync.Mutex
 	connection *amqp.Connection
 	channel    *amqp.Channel
+	confirms   chan amqp.Confirmation
 	config     map[string]string
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
-	var (
-		err error
-	)
 	if cfg == nil {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
 
 	c.config = cfg
+	return c.connect()
+}
+
+// connect устанавливает соединение и открывает канал с подтверждением публикаций
+func (c *Connector) connect() error {
+	var err error
+
 	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
 
-	if c.channel, err = c.connection.Channel(); err != nil {
+	if c.channel, err = c.connection.Channel(); err == nil {
+		err = c.channel.Confirm(false)
+	}
+	if err != nil {
+		c.disconnect()
 		return fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
 	}
+	c.confirms = c.channel.NotifyPublish(make(chan amqp.Confirmation, 1))
 
-	return err
+	return nil
+}
+
+// disconnect отбрасывает неисправное соединение, не дожидаясь ответа брокера
+func (c *Connector) disconnect() {
+	go c.connection.Close()
+	c.connection, c.channel, c.confirms = nil, nil, nil
 }
 
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
@@ -55,6 +77,15 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if c.channel == nil {
+		if err = c.connect(); err != nil {
+			return err
+		}
+	}
+
 	if err = c.channel.Publish(
 		c.config["exchange"],
 		c.config["key"],
@@ -64,8 +95,26 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 			ContentType: "text/plain",
 			Body:        innerPkg,
 		}); err != nil {
+		c.disconnect()
 		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
 	}
+
+	timer := time.NewTimer(confirmTimeout)
+	defer timer.Stop()
+
+	select {
+	case confirm, ok := <-c.confirms:
+		if !ok {
+			c.disconnect()
+			return fmt.Errorf("Соединение с RabbitMQ закрыто до подтверждения пакета")
+		}
+		if !confirm.Ack {
+			return fmt.Errorf("RabbitMQ не принял пакет")
+		}
+	case <-timer.C:
+		c.disconnect()
+		return fmt.Errorf("RabbitMQ не подтвердил пакет вовремя")
+	}
 	return nil
 }
 
-- 
2.43.0


From a85fd89f0ae7d3c02349fa965d0197df0b486ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 19/34] fix: packet-gen exits with status 1 when the packet was
 processed correctly

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index ed73be7..d484199 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From d1034a1103b14512aee87ae22b22f476aa9f197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 20/34] fix: packet-gen ignores the time given on its command
 line

---
 cli/packet-gen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index d484199..07478ba 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -79,7 +79,7 @@ func main() {
 	}
 	timestamp, err := time.Parse(time.RFC3339, ts)
 	if err != nil {
-		fmt.Println("Parsing timestamp failed: ", timestamp)
+		fmt.Println("Parsing timestamp failed: ", err)
 		os.Exit(1)
 	}
 
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From 52a7c70bf6e22e7944aeea5d6c655c3f9a164793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 21/34] fix: packet-gen sends positions of the southern and
 western hemispheres as garbage

---
 cli/packet-gen/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 07478ba..4aa8f2e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -83,6 +84,15 @@ func main() {
 		os.Exit(1)
 	}
 
+	// широта и долгота передаются по модулю, полушарие - в флагах
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lahs = "1"
+	}
+	if lon < 0 {
+		lohs = "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -114,11 +124,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From a5b4398ce533c9e4876c676f17c2a7463d50fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 22/34] fix: packet-gen judges a partly received ack and does
 not keep its waiting time

---
 cli/packet-gen/main.go | 46 ++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 4aa8f2e..12f5b31 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,12 @@
 package main
 
 import (
+	"encoding/binary"
+	"errors"
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"io"
 	"math"
 	"net"
 	"os"
@@ -59,7 +62,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
@@ -166,17 +169,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	tcpAddr, err := net.ResolveTCPAddr("tcp", server)
-	if err != nil {
-		fmt.Println("ResolveTCPAddr failed:", err)
-		os.Exit(1)
-	}
-
-	conn, err := net.DialTCP("tcp", nil, tcpAddr)
+	// все время обмена с сервером ограничено временем ожидания
+	deadline := time.Now().Add(time.Duration(ackTimeout) * time.Second)
+	dialer := net.Dialer{Deadline: deadline}
+	conn, err := dialer.Dial("tcp", server)
 	if err != nil {
 		fmt.Println("Dial failed:", err)
 		os.Exit(1)
 	}
+	_ = conn.SetDeadline(deadline)
 
 	_, err = conn.Write(sendBytes)
 	if err != nil {
@@ -184,17 +185,14 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
-	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
@@ -232,3 +230,25 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// readPacket читает пакет целиком, какими бы частями он ни приходил
+func readPacket(r io.Reader) ([]byte, error) {
+	header := make([]byte, 10)
+	if _, err := io.ReadFull(r, header); err != nil {
+		return nil, err
+	}
+
+	pkgLen := int(header[3])
+	if header[0] != 0x01 || pkgLen < len(header) {
+		return nil, errors.New("incorrect packet header")
+	}
+	if bodyLen := int(binary.LittleEndian.Uint16(header[5:7])); bodyLen > 0 {
+		pkgLen += bodyLen + 2
+	}
+
+	body := make([]byte, pkgLen-len(header))
+	if _, err := io.ReadFull(r, body); err != nil {
+		return nil, err
+	}
+	return append(header, body...), nil
+}
-- 
2.43.0


From 75bc588662ff494452b99e352578d624c55b00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 23/34] fix: packet-gen crashes on an ack without records and
 does not require its record to be confirmed

---
 cli/packet-gen/main.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 12f5b31..75bfa73 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -45,6 +45,9 @@ Example
 Created by Igor Kuznetsov
 */
 
+// recordNumber номер единственной записи пакета
+const recordNumber = 1
+
 func main() {
 
 	pid := 0
@@ -110,7 +113,7 @@ func main() {
 		PacketType:       1,
 		ServicesFrameData: &egts.ServiceDataSet{
 			egts.ServiceDataRecord{
-				RecordNumber:             1,
+				RecordNumber:             recordNumber,
 				SourceServiceOnDevice:    "0",
 				RecipientServiceOnDevice: "0",
 				Group:                    "0",
@@ -215,7 +218,12 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	confirmed := false
+	sdr, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		sdr = &egts.ServiceDataSet{}
+	}
+	for _, rec := range *sdr {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
@@ -223,10 +231,17 @@ func main() {
 						fmt.Printf("Incorrect record status: %d (actual) != 0 (expected)", response.RecordStatus)
 						os.Exit(1)
 					}
+					if response.ConfirmedRecordNumber == recordNumber {
+						confirmed = true
+					}
 				}
 			}
 		}
 	}
+	if !confirmed {
+		fmt.Println("Record is not confirmed")
+		os.Exit(1)
+	}
 
 	fmt.Println("Packet sent and processed correct")
 }
-- 
2.43.0


From 42f5fe573f208beaebc297f8b866bdf838590ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 24/34] fix: a damaged routing flag makes the header checksum
 be taken from the body

---
 libs/egts/egts_pkg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c3e6a33..b19f34a 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -105,6 +105,8 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка: %d", p.HeaderLength)
 	}
 
+	// контрольная сумма - последний байт заголовка, даже если поврежденный флаг Route говорит об ином
+	p.HeaderCheckSum = content[p.HeaderLength-1]
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
-- 
2.43.0


From e171e41b69f9eed86b9079c44a1489d3169d89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 25/34] fix: an answer that the terminal reads slowly is cut
 off when the whole of it takes longer than the connection lifetime

---
 cli/receiver/server/server.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 2024dbd..e7ddf81 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -71,16 +71,24 @@ func (c ttlConn) Read(b []byte) (int, error) {
 }
 
 func (c ttlConn) Write(b []byte) (int, error) {
-	if c.ttl > 0 {
-		_ = c.Conn.SetWriteDeadline(time.Now().Add(c.ttl))
-	}
+	sent := 0
+	for {
+		if c.ttl > 0 {
+			_ = c.Conn.SetWriteDeadline(time.Now().Add(c.ttl))
+		}
 
-	n, err := c.Conn.Write(b)
-	if ne, ok := err.(net.Error); ok && ne.Timeout() {
-		// ответ мог уйти частично, продолжать обмен нельзя
-		_ = c.Conn.Close()
+		n, err := c.Conn.Write(b[sent:])
+		sent += n
+		if ne, ok := err.(net.Error); ok && ne.Timeout() {
+			if n > 0 {
+				// клиент медленно, но читает ответ
+				continue
+			}
+			// ответ мог уйти частично, продолжать обмен нельзя
+			_ = c.Conn.Close()
+		}
+		return sent, err
 	}
-	return n, err
 }
 
 func (s *Server) handleConn(conn net.Conn) {
-- 
2.43.0


From e748344a1405b796df25a0c8eb45f04827eb297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 26/34] fix: nats storage confirms records that the server
 refuses to publish

---
 cli/receiver/storage/store/nats/connector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index eec72cc..3871935 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -62,6 +62,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	lastErr := c.connection.LastError()
 	reconnects := c.connection.Stats().Reconnects
 	if err = c.connection.Publish(c.config["topic"], innerPkg); err != nil {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
@@ -71,7 +72,12 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if err = c.connection.FlushTimeout(flushTimeout); err != nil {
 		return fmt.Errorf("Не удалось подтвердить отправку сообщения в топик: %v", err)
 	}
-	if c.connection.Stats().Reconnects != reconnects {
+	// отказ в публикации (нет прав на топик) приходит до подтверждения и соединение не разрывает;
+	// при потере соединения последняя ошибка сбрасывается, поэтому оно проверяется после нее
+	if err = c.connection.LastError(); err != nil && err != lastErr {
+		return fmt.Errorf("Сервер не принял сообщение: %v", err)
+	}
+	if !c.connection.IsConnected() || c.connection.Stats().Reconnects != reconnects {
 		return fmt.Errorf("Соединение прервалось во время отправки сообщения в топик")
 	}
 	return nil
-- 
2.43.0


From 613992661fb2926b7b7677ffdbb44ccd4dec8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 27/34] fix: nats: connect again when the library has closed
 the connection for good

---
 cli/receiver/storage/store/nats/connector.go | 51 ++++++++++++++++----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 3871935..63978b9 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -13,6 +13,7 @@ topic = "receiver"
 import (
 	"fmt"
 	natsLib "github.com/nats-io/nats.go"
+	"sync"
 	"time"
 )
 
@@ -20,6 +21,7 @@ import (
 const flushTimeout = 5 * time.Second
 
 type Connector struct {
+	mu         sync.Mutex // защищает connection
 	connection *natsLib.Conn
 	config     map[string]string
 }
@@ -33,6 +35,12 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 
+	c.connection, err = c.connect()
+	return err
+}
+
+// connect создает соединение с шиной
+func (c *Connector) connect() (*natsLib.Conn, error) {
 	var options = make([]natsLib.Option, 3)
 
 	// недоступность шины не должна навсегда отключать хранилище
@@ -46,10 +54,27 @@ func (c *Connector) Init(cfg map[string]string) error {
 		}
 	}
 
-	if c.connection, err = natsLib.Connect(c.config["servers"], options...); err != nil {
-		return fmt.Errorf("Ошибка подключения к nats шине: %v", err)
+	connection, err := natsLib.Connect(c.config["servers"], options...)
+	if err != nil {
+		return nil, fmt.Errorf("Ошибка подключения к nats шине: %v", err)
 	}
-	return err
+	return connection, nil
+}
+
+// activeConnection возвращает текущее соединение. Соединение, которое библиотека закрыла окончательно
+// (сервер, например, повторно отказал в авторизации), само не восстанавливается и создается заново
+func (c *Connector) activeConnection() (*natsLib.Conn, error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if c.connection.IsClosed() {
+		connection, err := c.connect()
+		if err != nil {
+			return nil, err
+		}
+		c.connection = connection
+	}
+	return c.connection, nil
 }
 
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
@@ -62,28 +87,36 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
-	lastErr := c.connection.LastError()
-	reconnects := c.connection.Stats().Reconnects
-	if err = c.connection.Publish(c.config["topic"], innerPkg); err != nil {
+	connection, err := c.activeConnection()
+	if err != nil {
+		return err
+	}
+
+	lastErr := connection.LastError()
+	reconnects := connection.Stats().Reconnects
+	if err = connection.Publish(c.config["topic"], innerPkg); err != nil {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
 	}
 
 	// Publish только ставит сообщение в очередь отправки, дожидаемся приема сервером
-	if err = c.connection.FlushTimeout(flushTimeout); err != nil {
+	if err = connection.FlushTimeout(flushTimeout); err != nil {
 		return fmt.Errorf("Не удалось подтвердить отправку сообщения в топик: %v", err)
 	}
 	// отказ в публикации (нет прав на топик) приходит до подтверждения и соединение не разрывает;
 	// при потере соединения последняя ошибка сбрасывается, поэтому оно проверяется после нее
-	if err = c.connection.LastError(); err != nil && err != lastErr {
+	if err = connection.LastError(); err != nil && err != lastErr {
 		return fmt.Errorf("Сервер не принял сообщение: %v", err)
 	}
-	if !c.connection.IsConnected() || c.connection.Stats().Reconnects != reconnects {
+	if !connection.IsConnected() || connection.Stats().Reconnects != reconnects {
 		return fmt.Errorf("Соединение прервалось во время отправки сообщения в топик")
 	}
 	return nil
 }
 
 func (c *Connector) Close() error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	c.connection.Close()
 	return nil
 }
-- 
2.43.0


From 6e33a1c89ecb7126d60e51e9b69134574acdb23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 28/34] fix: rabbitmq: terminals wait for one another's
 confirmations

While the broker had not confirmed the record of one terminal, the records of
all others waited for it, each for a round trip of its own. Every publication
now gets a channel of its own while it waits.
---
 .../storage/store/rabbitmq/connector.go       | 231 +++++++++++++-----
 1 file changed, 171 insertions(+), 60 deletions(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index f495a73..81b54d0 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -24,11 +24,32 @@ import (
 const confirmTimeout = 10 * time.Second
 
 type Connector struct {
-	mu         sync.Mutex
+	mu      sync.Mutex // защищает current, dialing и содержимое сеансов
+	current *session
+	dialing *attempt
+	config  map[string]string
+}
+
+// session соединение с брокером. Каждой публикации на время ожидания подтверждения отдается отдельный канал,
+// чтобы публикации не ждали друг друга
+type session struct {
 	connection *amqp.Connection
-	channel    *amqp.Channel
-	confirms   chan amqp.Confirmation
-	config     map[string]string
+	slots      chan struct{} // публикаций одновременно не больше, чем каналов, разрешенных брокером
+	free       []*publisher  // каналы, не занятые публикациями
+	users      int           // число публикаций, использующих соединение
+	retired    bool          // неисправное соединение: новым публикациям не отдается и закрывается с последней
+}
+
+// publisher канал с подтверждением публикаций
+type publisher struct {
+	channel  *amqp.Channel
+	confirms chan amqp.Confirmation
+}
+
+// attempt попытка соединения, результат которой ожидают все, кому оно нужно
+type attempt struct {
+	done chan struct{}
+	err  error
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
@@ -37,100 +58,190 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	return c.connect()
+	s, err := c.acquire()
+	if err != nil {
+		return err
+	}
+	c.release(s, nil, true)
+	return nil
 }
 
-// connect устанавливает соединение и открывает канал с подтверждением публикаций
-func (c *Connector) connect() error {
-	var err error
+// acquire возвращает действующее соединение, при необходимости устанавливая его
+func (c *Connector) acquire() (*session, error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
-	if c.connection, err = amqp.Dial(conStr); err != nil {
-		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
+	for c.current == nil || c.current.connection.IsClosed() {
+		a := c.dialing
+		if a != nil {
+			c.mu.Unlock()
+			<-a.done
+			c.mu.Lock()
+		} else {
+			a = &attempt{done: make(chan struct{})}
+			c.dialing = a
+			c.mu.Unlock()
+
+			s, err := c.connect()
+
+			c.mu.Lock()
+			if a.err = err; err == nil {
+				c.current = s
+			}
+			c.dialing = nil
+			close(a.done)
+		}
+		if a.err != nil {
+			return nil, a.err
+		}
 	}
 
-	if c.channel, err = c.connection.Channel(); err == nil {
-		err = c.channel.Confirm(false)
+	c.current.users++
+	return c.current, nil
+}
+
+// release возвращает соединение и, если он еще пригоден, канал
+func (c *Connector) release(s *session, p *publisher, healthy bool) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if p != nil {
+		s.free = append(s.free, p)
 	}
-	if err != nil {
-		c.disconnect()
-		return fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
+	if !healthy {
+		s.retired = true
+		if c.current == s {
+			c.current = nil
+		}
 	}
-	c.confirms = c.channel.NotifyPublish(make(chan amqp.Confirmation, 1))
 
-	return nil
+	if s.users--; s.users == 0 && s.retired {
+		// не дожидаясь ответа брокера
+		go s.connection.Close()
+	}
 }
 
-// disconnect отбрасывает неисправное соединение, не дожидаясь ответа брокера
-func (c *Connector) disconnect() {
-	go c.connection.Close()
-	c.connection, c.channel, c.confirms = nil, nil, nil
-}
+// connect устанавливает соединение и открывает первый канал
+func (c *Connector) connect() (*session, error) {
+	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	connection, err := amqp.Dial(conStr)
+	if err != nil {
+		return nil, fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
+	}
 
-func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
-	if msg == nil {
-		return fmt.Errorf("Не корректная ссылка на пакет")
+	limit := connection.Config.ChannelMax
+	if limit < 1 {
+		limit = 1
 	}
+	s := &session{connection: connection, slots: make(chan struct{}, limit)}
 
-	innerPkg, err := msg.ToBytes()
+	p, err := s.open()
 	if err != nil {
-		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
+		go connection.Close()
+		return nil, err
 	}
+	s.free = append(s.free, p)
 
-	c.mu.Lock()
-	defer c.mu.Unlock()
+	return s, nil
+}
 
-	if c.channel == nil {
-		if err = c.connect(); err != nil {
-			return err
-		}
+// open открывает канал с подтверждением публикаций
+func (s *session) open() (*publisher, error) {
+	channel, err := s.connection.Channel()
+	if err == nil {
+		err = channel.Confirm(false)
+	}
+	if err != nil {
+		return nil, fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
 	}
+	return &publisher{channel, channel.NotifyPublish(make(chan amqp.Confirmation, 1))}, nil
+}
 
-	if err = c.channel.Publish(
-		c.config["exchange"],
-		c.config["key"],
+// publish публикует сообщение и дожидается подтверждения. Сообщает также, пригодны ли после этого канал и соединение
+func (p *publisher) publish(exchange string, key string, body []byte) (usable bool, healthy bool, err error) {
+	if err = p.channel.Publish(
+		exchange,
+		key,
 		false,
 		false,
 		amqp.Publishing{
 			ContentType: "text/plain",
-			Body:        innerPkg,
+			Body:        body,
 		}); err != nil {
-		c.disconnect()
-		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
+		return false, false, fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
 	}
 
 	timer := time.NewTimer(confirmTimeout)
 	defer timer.Stop()
 
 	select {
-	case confirm, ok := <-c.confirms:
+	case confirm, ok := <-p.confirms:
 		if !ok {
-			c.disconnect()
-			return fmt.Errorf("Соединение с RabbitMQ закрыто до подтверждения пакета")
+			// брокер закрыл канал; если закрыто и соединение, это выяснится при следующей публикации
+			return false, true, fmt.Errorf("RabbitMQ закрыл канал до подтверждения пакета")
 		}
 		if !confirm.Ack {
-			return fmt.Errorf("RabbitMQ не принял пакет")
+			return true, true, fmt.Errorf("RabbitMQ не принял пакет")
 		}
 	case <-timer.C:
-		c.disconnect()
-		return fmt.Errorf("RabbitMQ не подтвердил пакет вовремя")
+		return false, false, fmt.Errorf("RabbitMQ не подтвердил пакет вовремя")
 	}
-	return nil
+	return true, true, nil
 }
 
-func (c *Connector) Close() error {
-	var err error
-	if c != nil {
-		if c.channel != nil {
-			if err = c.channel.Close(); err != nil {
-				return err
-			}
-		}
-		if c.connection != nil {
-			if err = c.connection.Close(); err != nil {
-				return err
-			}
-		}
+func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
+	if msg == nil {
+		return fmt.Errorf("Не корректная ссылка на пакет")
+	}
+
+	innerPkg, err := msg.ToBytes()
+	if err != nil {
+		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
+	}
+
+	s, err := c.acquire()
+	if err != nil {
+		return err
 	}
+
+	var (
+		p               *publisher
+		usable, healthy bool
+	)
+
+	s.slots <- struct{}{}
+	defer func() { <-s.slots }()
+
+	c.mu.Lock()
+	if n := len(s.free); n > 0 {
+		p, s.free = s.free[n-1], s.free[:n-1]
+	}
+	c.mu.Unlock()
+
+	if p == nil {
+		p, err = s.open()
+	}
+	if err == nil {
+		usable, healthy, err = p.publish(c.config["exchange"], c.config["key"], innerPkg)
+	}
+	if !usable {
+		p = nil
+	}
+	c.release(s, p, healthy)
+
 	return err
 }
+
+func (c *Connector) Close() error {
+	if c == nil {
+		return nil
+	}
+
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if c.current == nil {
+		return nil
+	}
+	return c.current.connection.Close()
+}
-- 
2.43.0


From 09e0742c91a951ebfcdaddf48b82b8a6723905fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 29/34] fix: rabbitmq: a user name or password with characters
 special to URLs does not work

---
 cli/receiver/storage/store/rabbitmq/connector.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 81b54d0..7ddf413 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 	"sync"
 	"time"
 )
@@ -123,8 +124,13 @@ func (c *Connector) release(s *session, p *publisher, healthy bool) {
 
 // connect устанавливает соединение и открывает первый канал
 func (c *Connector) connect() (*session, error) {
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
-	connection, err := amqp.Dial(conStr)
+	conStr := url.URL{
+		Scheme: "amqp",
+		User:   url.UserPassword(c.config["user"], c.config["password"]),
+		Host:   fmt.Sprintf("%s:%s", c.config["host"], c.config["port"]),
+		Path:   "/",
+	}
+	connection, err := amqp.Dial(conStr.String())
 	if err != nil {
 		return nil, fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From f68a40ba77da13031205d6f82b5554bb4021d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 30/34] fix: postgresql: values with spaces, quotes or
 backslashes and an empty password break the connection string

---
 .../storage/store/postgresql/connector.go     | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..920db15 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -34,9 +35,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
 	c.config = cfg
-	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
-	if c.connection, err = sql.Open("postgres", connStr); err != nil {
+	if c.connection, err = sql.Open("postgres", connString(cfg)); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
 
@@ -46,6 +45,21 @@ func (c *Connector) Init(cfg map[string]string) error {
 	return err
 }
 
+// connString собирает строку подключения из заданных параметров, экранируя их значения
+func connString(cfg map[string]string) string {
+	var params []string
+
+	escape := strings.NewReplacer(`\`, `\\`, `'`, `\'`)
+	for _, p := range [][2]string{
+		{"dbname", "database"}, {"host", "host"}, {"port", "port"}, {"user", "user"}, {"password", "password"}, {"sslmode", "sslmode"},
+	} {
+		if value := cfg[p[1]]; value != "" {
+			params = append(params, fmt.Sprintf("%s='%s'", p[0], escape.Replace(value)))
+		}
+	}
+	return strings.Join(params, " ")
+}
+
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
-- 
2.43.0


From 788ef3ee11252a075e48d770d749c4fa0173c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 31/34] fix: nats: a connection that lost its pings while
 reconnecting never confirms again

---
 cli/receiver/storage/store/nats/connector.go | 26 +++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 63978b9..5ec4dfd 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -62,12 +62,13 @@ func (c *Connector) connect() (*natsLib.Conn, error) {
 }
 
 // activeConnection возвращает текущее соединение. Соединение, которое библиотека закрыла окончательно
-// (сервер, например, повторно отказал в авторизации), само не восстанавливается и создается заново
+// (сервер, например, повторно отказал в авторизации) или которое перестало подтверждать прием,
+// само не восстанавливается и создается заново
 func (c *Connector) activeConnection() (*natsLib.Conn, error) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	if c.connection.IsClosed() {
+	if c.connection == nil || c.connection.IsClosed() {
 		connection, err := c.connect()
 		if err != nil {
 			return nil, err
@@ -77,6 +78,18 @@ func (c *Connector) activeConnection() (*natsLib.Conn, error) {
 	return c.connection, nil
 }
 
+// discard отказывается от соединения, следующее сообщение создаст новое
+func (c *Connector) discard(connection *natsLib.Conn) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if c.connection == connection {
+		c.connection = nil
+		// не дожидаясь отправки того, что еще не отправлено
+		go connection.Close()
+	}
+}
+
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
@@ -100,6 +113,11 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 
 	// Publish только ставит сообщение в очередь отправки, дожидаемся приема сервером
 	if err = connection.FlushTimeout(flushTimeout); err != nil {
+		// при обрыве посреди восстановления соединения библиотека теряет запросы подтверждений, но продолжает
+		// ждать ответы на них и относит к ним все последующие: такое соединение не подтвердит уже ничего
+		if err == natsLib.ErrTimeout && connection.IsConnected() {
+			c.discard(connection)
+		}
 		return fmt.Errorf("Не удалось подтвердить отправку сообщения в топик: %v", err)
 	}
 	// отказ в публикации (нет прав на топик) приходит до подтверждения и соединение не разрывает;
@@ -117,6 +135,8 @@ func (c *Connector) Close() error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.connection.Close()
+	if c.connection != nil {
+		c.connection.Close()
+	}
 	return nil
 }
-- 
2.43.0


From 90161c83fdfb05dc4022aa2ee6c2fec62d69a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:35 +0000
Subject: [PATCH 32/34] fix: nsq: an nsqd that is stopped while a connection is
 being set up brings the receiver down

---
 cli/receiver/storage/store/nsq/connector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/receiver/storage/store/nsq/connector.go b/cli/receiver/storage/store/nsq/connector.go
index 7468673..c725218 100644
--- a/cli/receiver/storage/store/nsq/connector.go
+++ b/cli/receiver/storage/store/nsq/connector.go
@@ -12,6 +12,7 @@ topic = "receiver"
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/nsqio/go-nsq"
 	log "github.com/sirupsen/logrus"
@@ -34,6 +35,10 @@ func (c *Connector) Init(cfg map[string]string) error {
 	log.Info("Connect to NSQ server:", c.config["server"])
 
 	config := nsq.NewConfig()
+	// nsqd проверяет и соединение, которое еще не представилось (через 30 секунд после приема). Клиент, дождавшийся
+	// такой проверки от приостановленного nsqd, принимает ее за ответ, сбивается со счета ответов и падает
+	config.HeartbeatInterval = 10 * time.Second
+	config.ReadTimeout = 20 * time.Second
 
 	if c.producer, err = nsq.NewProducer(c.config["server"], config); err != nil {
 		return fmt.Errorf("Ошибка подключения к nsq шине: %v", err)
-- 
2.43.0


From bce47beec5619a65003b25c0d7d11100a1166106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:45 +0000
Subject: [PATCH 33/34] fix: a bare IPv6 bind address keeps the receiver from
 listening

---
 cli/receiver/config/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/config/config.go b/cli/receiver/config/config.go
index 2c798e3..36cbea9 100644
--- a/cli/receiver/config/config.go
+++ b/cli/receiver/config/config.go
@@ -6,7 +6,9 @@ package config
 
 import (
 	log "github.com/sirupsen/logrus"
+	"net"
 	"os"
+	"strings"
 	"time"
 
 	"gopkg.in/yaml.v2"
@@ -24,7 +26,8 @@ func (s *Settings) GetEmptyConnTTL() time.Duration {
 	return time.Duration(s.ConnTTl) * time.Second
 }
 func (s *Settings) GetListenAddress() string {
-	return s.Host + ":" + s.Port
+	// адрес IPv6 может быть задан и в квадратных скобках
+	return net.JoinHostPort(strings.Trim(s.Host, "[]"), s.Port)
 }
 
 func (s *Settings) GetLogLevel() log.Level {
-- 
2.43.0


From 4241f069edcdd33322d84cf12704306887175eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:47 +0000
Subject: [PATCH 34/34] fix: tarantool: an IPv6 host cannot be connected to

---
 cli/receiver/storage/store/tarantool_queue/connector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/tarantool_queue/connector.go b/cli/receiver/storage/store/tarantool_queue/connector.go
index 8c01b2e..51cde75 100644
--- a/cli/receiver/storage/store/tarantool_queue/connector.go
+++ b/cli/receiver/storage/store/tarantool_queue/connector.go
@@ -19,7 +19,9 @@ import (
 	"fmt"
 	"github.com/tarantool/go-tarantool"
 	"github.com/tarantool/go-tarantool/queue"
+	"net"
 	"strconv"
+	"strings"
 	"time"
 )
 
@@ -35,7 +37,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("%s:%s", c.config["host"], c.config["port"])
+	conStr := net.JoinHostPort(strings.Trim(c.config["host"], "[]"), c.config["port"])
 
 	maxRecons, err := strconv.Atoi(c.config["max_recons"])
 	if err != nil {
-- 
2.43.0

