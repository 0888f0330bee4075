From 6f7087519b91b805225b8e130201c22272bf485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 01/14] fix: DECIMAL text has no padding and zero is never
 empty

---
 replication/binlog_event_rbr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 4bc3da3..2a76c87 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -677,7 +677,7 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			if flag { //当txt有正整数写入
 				fmt.Fprintf(txt, "%09d", val)
 			} else if val > 0 { //当txt无正整数且val>0时 才能写入
-				fmt.Fprintf(txt, "%9d", val)
+				fmt.Fprintf(txt, "%d", val)
 				flag = true
 			}
 			pos += 4
@@ -685,6 +685,9 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 
 		// now see if we have a fraction
 		if scale == 0 {
+			if !flag {
+				txt.WriteByte('0')
+			}
 			return txt.Bytes(), l, nil
 		}
 
-- 
2.43.0


From d14bcc0ed0c9a6dc9b467ef58a191ae1ff05be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 02/14] fix: negative TIME (pre-5.6.4) keeps its sign and
 two-digit hours

---
 replication/binlog_event_rbr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 2a76c87..4ba0349 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -412,9 +412,10 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 				uint32(data[pos+1])<<8 +
 				uint32(data[pos+2])<<16 +
 				uint32(255)<<24)
-			hour = val / 10000
+			hour = -(val / 10000)
 			minute = -((val % 10000) / 100)
 			second = -(val % 100)
+			return []byte(fmt.Sprintf("-%02d:%02d:%02d", hour, minute, second)), 3, nil
 		} else {
 			val := int32(data[pos]) +
 				int32(data[pos+1])<<8 +
-- 
2.43.0


From dc7c852414c8fb64423badcb5b88057550d5cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 03/14] fix: zero timestamps no longer share one backing array

---
 replication/binlog_event_rbr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 4ba0349..fe5da58 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -314,7 +314,7 @@ func cellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
 // and return the Buffer.
 func printTimestamp(v uint32) *bytes.Buffer {
 	if v == 0 {
-		return bytes.NewBuffer(ZeroTimestamp)
+		return bytes.NewBuffer(append([]byte(nil), ZeroTimestamp...))
 	}
 
 	t := time.Unix(int64(v), 0).Local()
-- 
2.43.0


From d7e57509940f9f43648f0fe75e6f20925d65c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 04/14] fix: negative JSON TIME is decoded as a negated packed
 value

---
 replication/binlog_event_json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 91d5ad4..1f109c3 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -381,6 +381,11 @@ func printJSONDate(data []byte, toplevel bool, result *bytes.Buffer) error {
 
 func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 	raw := binary.LittleEndian.Uint64(data[:8])
+	negative := int64(raw) < 0
+	if negative {
+		// the packed value as a whole is negated
+		raw = -raw
+	}
 	value := raw >> 24
 	hour := (value >> 12) & 0x03ff // 10 bits starting at 12th
 	minute := (value >> 6) & 0x3f  // 6 bits starting at 6th
@@ -391,7 +396,7 @@ func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 		result.WriteString("CAST(")
 	}
 	result.WriteString("CAST('")
-	if value&0x8000000000 != 0 {
+	if negative {
 		result.WriteByte('-')
 	}
 	fmt.Fprintf(result, "%02d:%02d:%02d", hour, minute, second)
-- 
2.43.0


From a488a05f9aff7bfbeb0f35975ce33bfc7b035f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 05/14] fix: MariadbGTIDSet.AddGTID leaves the set it was
 called on alone

---
 replication/mariadb_gtid.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 892abcd..7656155 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -189,12 +189,15 @@ func (gtidSet MariadbGTIDSet) AddGTID(other GTID) GTIDSet {
 	for i, gtid := range gtidSet {
 		if mdbOther.Domain == gtid.Domain {
 			if mdbOther.Sequence > gtid.Sequence {
-				gtidSet[i] = mdbOther
+				// Sets are immutable: change a copy.
+				newSet := append(MariadbGTIDSet(nil), gtidSet...)
+				newSet[i] = mdbOther
+				return newSet
 			}
 			return gtidSet
 		}
 	}
-	return append(gtidSet, mdbOther)
+	return append(gtidSet[:len(gtidSet):len(gtidSet)], mdbOther)
 }
 
 func init() {
-- 
2.43.0


From 6d1690ef4203b5553939cd03ab3466d26fcf3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 06/14] fix: a statement's keyword may be followed by any white
 space

---
 mysql_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_types.go b/mysql_types.go
index 99be901..93f55cf 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -78,7 +78,7 @@ func (s StatementType) IsDDL() bool {
 
 //GetStatementCategory we can get statement type from a SQL
 func GetStatementCategory(sql string) StatementType {
-	if i := strings.IndexByte(sql, byte(' ')); i >= 0 {
+	if i := strings.IndexAny(sql, " \t\n\v\f\r"); i >= 0 {
 		sql = sql[:i]
 	}
 	if s, ok := statementPrefixes[strings.ToLower(sql)]; ok {
-- 
2.43.0


From 9432831e441a37b8de71c1391edfac1805b6edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 07/14] fix: a transaction the handler rejected is delivered
 again

---
 streamer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamer.go b/streamer.go
index 8aaecd0..eac7775 100755
--- a/streamer.go
+++ b/streamer.go
@@ -126,6 +126,8 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 		next := pos
 		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
 		if err = s.sendTransaction(tran); err != nil {
+			// not accepted: the next attempt starts before this transaction
+			pos = now
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
 		tranEvents = nil
-- 
2.43.0


From 53f63ff30554d40b086511cf34cc153d5b70eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 08/14] fix: a column count mismatch keeps the resume position

---
 streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index eac7775..494820e 100755
--- a/streamer.go
+++ b/streamer.go
@@ -280,7 +280,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 
 			if len(info.Columns()) != tm.CanBeNull.Count() {
-				return Position{},
+				return pos,
 					newError(fmt.Errorf("parseEvents the length of column in tableMap(%d) "+
 						"did not equal to the length of column in table info(%d)", tm.CanBeNull.Count(),
 						len(info.Columns())))
-- 
2.43.0


From 540ff78f5e828b25432216a634295eb617ad7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 09/14] fix: a table id announced for another table is looked
 up again

---
 streamer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 494820e..cb6a2ba 100755
--- a/streamer.go
+++ b/streamer.go
@@ -263,7 +263,8 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Debugf("parseEvents pos: %+v binlog event is a table map event, tableID: %v table map: %+v",
 				pos, tableID, *tm)
 
-			if _, ok = tablesMaps[tableID]; ok {
+			if old, ok := tablesMaps[tableID]; ok && old.tableMap.Database == tm.Database &&
+				old.tableMap.Name == tm.Name && len(old.table.Columns()) == tm.CanBeNull.Count() {
 				tablesMaps[tableID].tableMap = tm
 				continue
 			}
-- 
2.43.0


From da141775c6c4f7ca3a3aaa5b076bfbb0bb297cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 10/14] fix: Error() never blocks without a connection and
 never forgets why the stream ended

---
 streamer.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/streamer.go b/streamer.go
index cb6a2ba..6791000 100755
--- a/streamer.go
+++ b/streamer.go
@@ -24,6 +24,7 @@ type Streamer struct {
 	sendTransaction SendTransactionFunc
 	errChan         <-chan *Error
 	ctx             context.Context
+	lastErr         error
 }
 
 //SendTransactionFunc 处理事务信息函数，你可以将一个chan注册到这个函数中如
@@ -60,7 +61,11 @@ func (s *Streamer) binlogPosition() Position {
 
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
-	s.ctx = ctx
+	// The reader reports a cancellation that ends the stream by itself: a
+	// cancellation that comes later must not hide why the stream ended.
+	s.ctx = context.Background()
+	s.errChan = nil
+	s.lastErr = nil
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
 		return mysql.NewDumpConn(s.dsn, ctx)
 	})
@@ -86,9 +91,14 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 
 //Error 每次使用Stream后需要检测Error
 func (s *Streamer) Error() error {
+	if s.errChan == nil {
+		// no stream was ever started
+		return nil
+	}
 	select {
 	case err, ok := <-s.errChan:
 		if ok {
+			s.lastErr = nil
 			switch {
 			case s.ctx.Err() == context.Canceled:
 				return nil
@@ -96,10 +106,11 @@ func (s *Streamer) Error() error {
 				err.Original() == errStreamEOF:
 				return nil
 			default:
+				s.lastErr = err
 				return err
 			}
 		}
-		return nil
+		return s.lastErr
 	}
 }
 
-- 
2.43.0


From cd5d5af78fa82f662c1155122c335c24b7d6e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 11/14] fix: the reader goroutine ends with the Stream call
 that started it

---
 streamer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer.go b/streamer.go
index 6791000..ead733c 100755
--- a/streamer.go
+++ b/streamer.go
@@ -66,6 +66,9 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	s.ctx = context.Background()
 	s.errChan = nil
 	s.lastErr = nil
+	// whatever ends this call also ends the reader
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
 		return mysql.NewDumpConn(s.dsn, ctx)
 	})
-- 
2.43.0


From 5ba3287f9c7ddbab40df0b4d28e572f1ade6f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 12/14] fix: cancellation interrupts the handshake and closing
 no longer races with the reader

---
 slave_connection.go | 28 ++++++++++++++++++++++++++++
 streamer.go         |  6 +++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/slave_connection.go b/slave_connection.go
index 4f5afb7..ee080b8 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -16,6 +16,34 @@ type dumpConn interface {
 	HandleErrorPacket([]byte) error
 }
 
+// watchedDumpConn is a dump connection the driver closes as soon as ctx is
+// done, which unblocks any read or write under way.
+type watchedDumpConn struct {
+	*mysql.DumpConn
+	ctx     context.Context
+	cancel  context.CancelFunc
+	watched bool
+}
+
+// Exec leaves the driver's watch on ctx armed: the rows are never closed.
+func (c *watchedDumpConn) Exec(query string) error {
+	if _, err := c.DumpConn.QueryContext(c.ctx, query, nil); err != nil {
+		return err
+	}
+	c.watched = true
+	return nil
+}
+
+// Close must not touch the connection while the reader may be using it: it
+// lets the watch close the socket.
+func (c *watchedDumpConn) Close() error {
+	c.cancel()
+	if c.watched {
+		return nil
+	}
+	return c.DumpConn.Close()
+}
+
 // slaveConnection 从github.com/youtube/vitess/go/vt/mysqlctl/slave_connection.go的基础上移植过来
 // slaveConn通过StartDumpFromBinlogPosition和mysql库进行binlog dump，将自己伪装成slave，
 // 先执行SET @master_binlog_checksum=@@global.binlog_checksum，然后发送 binlog dump包，
diff --git a/streamer.go b/streamer.go
index ead733c..22682b8 100755
--- a/streamer.go
+++ b/streamer.go
@@ -70,7 +70,11 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
-		return mysql.NewDumpConn(s.dsn, ctx)
+		dc, e := mysql.NewDumpConn(s.dsn, ctx)
+		if e != nil {
+			return nil, e
+		}
+		return &watchedDumpConn{DumpConn: dc, ctx: ctx, cancel: cancel}, nil
 	})
 	if err != nil {
 		return err.msgf("newMysqlConn fail.")
-- 
2.43.0


From 53f42ab61e2df221b1acd0f4417c785275eb4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:03 +0000
Subject: [PATCH 13/14] fix: keep accepted transactions accepted when a handler
 or lookup panics

The position was stored only when parseEvents returned. A caller that recovers
from a panic of its handler or mapper and streams again got the transactions
its handler had already accepted a second time.
---
 streamer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamer.go b/streamer.go
index 22682b8..2889d4e 100755
--- a/streamer.go
+++ b/streamer.go
@@ -148,6 +148,8 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			pos = now
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
+		// accepted for good, even if a later call never returns but panics
+		s.SetBinlogPosition(pos)
 		tranEvents = nil
 		autocommit = true
 		return nil
-- 
2.43.0


From 16939d036853d11225351fb95ef1cfd28a54a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:07 +0000
Subject: [PATCH 14/14] fix: reject short error packets instead of panicking in
 the driver

---
 slave_connection.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/slave_connection.go b/slave_connection.go
index ee080b8..2ae8867 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -34,6 +34,14 @@ func (c *watchedDumpConn) Exec(query string) error {
 	return nil
 }
 
+// HandleErrorPacket rejects the packets the driver reads beyond the end of.
+func (c *watchedDumpConn) HandleErrorPacket(data []byte) error {
+	if len(data) < 4 || data[3] == '#' && len(data) < 9 {
+		return mysql.ErrMalformPkt
+	}
+	return c.DumpConn.HandleErrorPacket(data)
+}
+
 // Close must not touch the connection while the reader may be using it: it
 // lets the watch close the socket.
 func (c *watchedDumpConn) Close() error {
-- 
2.43.0

