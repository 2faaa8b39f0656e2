From eda7f44fe86c24612eba27d19ae3289ce7db206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 01/21] fix: reject packets whose header length is not the
 header's size

A header length of 0, or beyond the packet, made Package.Decode slice out
of range and panic (which ends the receiver), and for large frames the
uint16 sum wrapped with the same effect. Any other wrong value let the body
checksum cover other bytes than the body.
---
 libs/egts/egts_pkg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d7c0600..3e22a83 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -121,6 +121,10 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	if int(p.HeaderLength) != len(content)-buf.Len() {
+		return egtsPcIncHeaderform, fmt.Errorf("Некорректная длина заголовка: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
@@ -160,7 +164,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 39229511fe318435ae5287720c30c16fbf30abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:56 +0000
Subject: [PATCH 02/21] fix: reject fields cut short by the end of the data

Decoders filled fields with bytes.Reader.Read/bytes.Buffer.Read, which
succeed when fewer bytes than asked for are left, so a truncated field was
completed with zero or stale bytes.  Read every field in full, check that a
subrecord has the announced length, and read the three bytes of the
altitude instead of relying on a short four-byte read.
---
 libs/egts/egts_pkg.go                    | 13 +++++++------
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_module_data.go         |  7 ++++---
 libs/egts/egts_sr_pos_data.go            | 16 +++++++++-------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  6 +++++-
 libs/egts/service_data_records.go        | 13 +++++++------
 14 files changed, 75 insertions(+), 57 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 3e22a83..7452aca 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -87,12 +88,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -102,12 +103,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -130,7 +131,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	switch p.PacketType {
@@ -159,7 +160,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..be70056 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..b8128d4 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_module_data.go b/libs/egts/egts_sr_module_data.go
index 86dc227..ff60c66 100644
--- a/libs/egts/egts_sr_module_data.go
+++ b/libs/egts/egts_sr_module_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 const (
@@ -38,19 +39,19 @@ func (e *SrModuleData) Decode(content []byte) error {
 	e.ModuleType = int8(moduleType)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить ID вендора")
 	}
 	e.VendorID = binary.LittleEndian.Uint32(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию прошивки")
 	}
 	e.FirmwareVersion = binary.LittleEndian.Uint16(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию ПО")
 	}
 	e.SoftwareVersion = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..b91e9d9 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,14 +46,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -60,7 +61,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -82,7 +83,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -103,7 +104,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -118,10 +119,11 @@ func (e *SrPosData) Decode(content []byte) error {
 	}
 
 	if e.ALTE == "1" {
-		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		bytesTmpBuf = make([]byte, 3)
+		if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
+		bytesTmpBuf = append(bytesTmpBuf, 0x00)
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
 	}
 
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index ad9b33f..19d4acd 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 51ecd9e..5e2555f 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -31,12 +32,15 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
+		if len(subRecordBytes) != int(rd.SubrecordLength) {
+			return fmt.Errorf("Подзапись короче указанной длины: %d", rd.SubrecordLength)
+		}
 
 		switch rd.SubrecordType {
 		case SrPosDataType:
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 60ed468..e0bdaf0 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,12 +46,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -69,7 +70,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -77,7 +78,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -86,7 +87,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			preFieldVal := binary.LittleEndian.Uint32(tm)
@@ -104,7 +105,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From b9ac39e2fa4e002539b396fbb8a74f0fc71bcc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 03/21] fix: decode the second counter into its own field

SrCountersData.Decode stored CN2 in Counter1, overwriting the first counter.
---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index b8128d4..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -66,7 +66,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From 93d6114ac92a1e8f42b9e417e9538db2c962f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:38 +0000
Subject: [PATCH 04/21] fix: write the analogue sensor flags in the standard's
 bit order

SrAdSensorsData.Encode wrote ASFE1..ASFE8 from the highest bit down, the
reverse of what the standard defines and Decode reads.
---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index be70056..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -235,14 +235,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 9db5f9eb3d11229a3dafa6c10b58d8cd3b2e26ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 05/21] fix: report malformed terminal identity flags

SrTermIdentity.Encode dropped the error of parsing its flag bits and wrote
a made-up flag byte.
---
 libs/egts/egts_sr_term_identity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 19d4acd..b2ec1a9 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -129,6 +129,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From 8070169dba6f4e1f31ae24cfde445028fc3214aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 06/21] fix: encode module data and dispatcher identity without
 explicit type

RecordDataSet.Decode produces these subrecords but Encode did not know
their type codes.
---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 5e2555f..97bf058 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -133,6 +133,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrModuleData:
+				rd.SubrecordType = SrModuleDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From 6fe8837c59bf0478b99c78c627c6217f3fbc0ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:57 +0000
Subject: [PATCH 07/21] fix: answer a wrong body checksum with the data
 checksum code

A body checksum mismatch was reported as a header checksum error.
---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 7452aca..54efd31 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -166,7 +166,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
 	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
-- 
2.43.0


From 207a07ca7b7474a6174d7071f485d7336f6b4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 08/21] fix: refuse to encode parts longer than their length
 field

The 16-bit frame, record and subrecord lengths wrapped around silently for
parts of 64 KiB and more.
---
 libs/egts/egts_pkg.go             |  4 ++++
 libs/egts/record_data.go          | 14 +++++++++-----
 libs/egts/service_data_records.go |  4 ++++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 54efd31..de09e62 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -237,6 +238,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 			}
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Секция данных слишком длинная: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 97bf058..4cf5d64 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -146,17 +147,20 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
+		srd, err := rd.SubrecordData.Encode()
+		if err != nil {
+			return result, err
+		}
+
 		if rd.SubrecordLength == 0 {
+			if len(srd) > math.MaxUint16 {
+				return result, fmt.Errorf("подзапись слишком длинная: %d", len(srd))
+			}
 			rd.SubrecordLength = rd.SubrecordData.Length()
 		}
 		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
 			return result, err
 		}
-
-		srd, err := rd.SubrecordData.Encode()
-		if err != nil {
-			return result, err
-		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index e0bdaf0..16d008c 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"time"
 )
@@ -136,6 +137,9 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 		}
 
 		if sdr.RecordLength == 0 {
+			if len(rd) > math.MaxUint16 {
+				return result, fmt.Errorf("данные записи SDR слишком длинные: %d", len(rd))
+			}
 			sdr.RecordLength = uint16(len(rd))
 		}
 		if err = binary.Write(buf, binary.LittleEndian, sdr.RecordLength); err != nil {
-- 
2.43.0


From 558ae61ddcaec86594943dc8940ef9f7ee646c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 09/21] fix: compute the frame length without wrap-around

The frame length was computed in 16 bits: a long body wrapped it around, and
a header length below ten made the rest of the frame nearly 64 KiB long.
---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 49f30c7..563c4fc 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -93,9 +93,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
+			if pkgLen < egts.DEFAULT_HEADER_LEN {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Некорректная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From a5221abbaa5fb5a63bc50f9bc33045c4362b5de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:57 +0000
Subject: [PATCH 10/21] fix: do not confirm a record whose storing failed

A record was confirmed with status OK even if the storage had refused it,
so the sender dropped data that nobody kept.
---
 cli/receiver/server/server.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 563c4fc..e12f3b6 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -11,8 +11,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -148,13 +149,14 @@ func (s *Server) handleConn(conn net.Conn) {
 				isPkgSave = false
 				packetIDBytes := make([]byte, 4)
 
+				recResponse := &egts.SrResponse{
+					ConfirmedRecordNumber: rec.RecordNumber,
+					RecordStatus:          egtsPcOk,
+				}
 				srResponsesRecord = append(srResponsesRecord, egts.RecordData{
 					SubrecordType:   egts.SrRecordResponseType,
 					SubrecordLength: 3,
-					SubrecordData: &egts.SrResponse{
-						ConfirmedRecordNumber: rec.RecordNumber,
-						RecordStatus:          egtsPcOk,
-					},
+					SubrecordData:   recResponse,
 				})
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
@@ -276,6 +278,7 @@ func (s *Server) handleConn(conn net.Conn) {
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
 						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+						recResponse.RecordStatus = egtsPcIoError
 					}
 				}
 			}
-- 
2.43.0


From 21d0f34172c76cf05c8f06cc434da125c8cc4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 11/21] fix: disconnect silent clients after conn_ttl

The timer was only waited for after the client had closed the connection,
so a silent client was never disconnected.
---
 cli/receiver/server/server.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e12f3b6..37b2f78 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -76,7 +76,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResultCodePkg = nil
 		recvPacket = nil
 
-		connTimer := time.NewTimer(s.ttl)
+		s.extendDeadline(conn)
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
@@ -84,7 +84,7 @@ func (s *Server) handleConn(conn net.Conn) {
 
 		switch err {
 		case nil:
-			connTimer.Reset(s.ttl)
+			s.extendDeadline(conn)
 
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
@@ -112,8 +112,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			// формируем полный пакет
 			recvPacket = append(headerBuf, buf...)
 		case io.EOF:
-			<-connTimer.C
-			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто клиентом")
 			return
 		default:
 			log.WithField("err", err).Error("Ошибка при получении")
@@ -303,6 +302,13 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 }
 
+// extendDeadline отсчитывает заново время, за которое клиент должен прислать данные
+func (s *Server) extendDeadline(conn net.Conn) {
+	if s.ttl > 0 {
+		_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
+	}
+}
+
 func New(srvAddress string, ttl time.Duration, s *storage.Repository) Server {
 	return Server{
 		addr:  srvAddress,
-- 
2.43.0


From 3f998c1125cf0271cac1b8905d86dca31e454b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 12/21] fix: end the accept loop when the server is stopped

After Stop, Accept fails for ever and Run kept logging in a busy loop.
---
 cli/receiver/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 37b2f78..82bcab2 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
 	log "github.com/sirupsen/logrus"
@@ -36,6 +37,9 @@ func (s *Server) Run() {
 	for {
 		conn, err := s.l.Accept()
 		if err != nil {
+			if errors.Is(err, net.ErrClosed) {
+				return
+			}
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
 			go s.handleConn(conn)
-- 
2.43.0


From 7dcfbdd8da6b70c14fca0982c705500edf385ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 13/21] fix: send the result code in an application data packet

The packet carries a service data section, which belongs into
EGTS_PT_APPDATA; labelled as EGTS_PT_RESPONSE it is decoded as a response to
a made-up packet.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 82bcab2..4b3975f 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -405,7 +405,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 31c8598f495d24f68731a0da732b3ad71ae46ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:18 +0000
Subject: [PATCH 14/21] fix: store southern latitudes and western longitudes as
 negative

The hemisphere flags were ignored, so such positions were stored mirrored.
---
 cli/receiver/server/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 4b3975f..d41a3da 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -196,6 +196,12 @@ func (s *Server) handleConn(conn net.Conn) {
 						exportPacket.ReceivedTimestamp = receivedTimestamp
 						exportPacket.Latitude = subRecData.Latitude
 						exportPacket.Longitude = subRecData.Longitude
+						if subRecData.LAHS == "1" {
+							exportPacket.Latitude = -subRecData.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							exportPacket.Longitude = -subRecData.Longitude
+						}
 						exportPacket.Speed = subRecData.Speed
 						exportPacket.Course = subRecData.Direction
 					case *egts.SrExtPosData:
-- 
2.43.0


From 056b932bec5ffe61db97506e8c1613304ec8c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 15/21] fix: combine the record number of counters 110 and 111
 correctly

The low bytes were put in reverse order and partly overwritten.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index d41a3da..4167d31 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -250,7 +250,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
+							binary.LittleEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
 							exportPacket.PacketID = subRecData.CounterValue
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
-- 
2.43.0


From 21e5314532dd53b0e056506e67e81506b04bd1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:29 +0000
Subject: [PATCH 16/21] fix: use redis database 0 when none is configured

The check used the result of an earlier lookup, so a configuration without
db failed to initialise.
---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 70c75b1..b050cf4 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From dbe914eb673714f60573e41e2ead11bb00aa8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:34 +0000
Subject: [PATCH 17/21] fix: send the time given on the command line

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 75f10ca..9bae84e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From 15647ee16bbd631ead4e6c0880bfd10df06e66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:40 +0000
Subject: [PATCH 18/21] fix: send southern and western coordinates with their
 hemisphere flag

The protocol carries the absolute value and a flag; the generator converted
the negative value itself.
---
 cli/packet-gen/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 9bae84e..11dc5ea 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -41,6 +42,14 @@ Example
 Created by Igor Kuznetsov
 */
 
+// hemisphere returns the hemisphere flag for a coordinate: "1" for south and west
+func hemisphere(coordinate float64) string {
+	if coordinate < 0 {
+		return "1"
+	}
+	return "0"
+}
+
 func main() {
 
 	pid := 0
@@ -114,11 +123,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                hemisphere(lon),
+							LAHS:                hemisphere(lat),
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From 8ca8c82456deb49f0ef198822d91c548af8a6fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:46 +0000
Subject: [PATCH 19/21] fix: wait five seconds for the acknowledgement by
 default

As documented; with the default of zero no acknowledgement could arrive in
time.
---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 11dc5ea..637c4c5 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -67,7 +67,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 134d76c3790702702a5575cb64ed73c5c0d28d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 20/21] fix: exit with success when the packet was acknowledged

The generator exited with 1 in every case, and panicked on an
acknowledgement without record statuses.
---
 cli/packet-gen/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 637c4c5..534a220 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -216,7 +216,13 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	sdr, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Received ack has no record statuses")
+		os.Exit(1)
+	}
+
+	for _, rec := range *sdr {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
@@ -230,5 +236,5 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
+	os.Exit(0)
 }
-- 
2.43.0


From e795b342bf926cc6b1229237b16afe4d49e2d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:31 +0000
Subject: [PATCH 21/21] fix: a client that takes no answers kept its connection
 forever

The idle limit covered reading only: conn.Write waited without a deadline for
a client that does not read, so such a connection was never released.
---
 cli/receiver/server/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 4167d31..3348b45 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -135,6 +135,7 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа EGTS_PT_RESPONSE с ошибкой")
 				goto Received
 			}
+			s.extendDeadline(conn)
 			_, _ = conn.Write(resp)
 
 			goto Received
@@ -297,11 +298,13 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа")
 				goto Received
 			}
+			s.extendDeadline(conn)
 			_, _ = conn.Write(resp)
 
 			log.WithField("packet", resp).Debug("Отправлен пакет EGTS_PT_RESPONSE")
 
 			if len(srResultCodePkg) > 0 {
+				s.extendDeadline(conn)
 				_, _ = conn.Write(srResultCodePkg)
 				log.WithField("packet", resp).Debug("Отправлен пакет EGTS_SR_RESULT_CODE")
 			}
@@ -312,10 +315,10 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 }
 
-// extendDeadline отсчитывает заново время, за которое клиент должен прислать данные
+// extendDeadline отсчитывает заново время, за которое клиент должен прислать данные или принять ответ
 func (s *Server) extendDeadline(conn net.Conn) {
 	if s.ttl > 0 {
-		_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
+		_ = conn.SetDeadline(time.Now().Add(s.ttl))
 	}
 }
 
-- 
2.43.0

