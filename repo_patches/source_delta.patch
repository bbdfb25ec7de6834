From 7b78d5070b5476054d20d8a6387059497b8bd68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 01/38] fix: reject a dealt share whose g^s does not match the
 committed F(j)

---
 internal/party/VSS.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index d3b78a6..50e1d03 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -88,6 +88,7 @@ func (p *HonestParty) VerifyVSSSendReceived(polyValue []bls.Fr, witness []bls.G1
 
 	if !bls.EqualG1(&piReceived.Gs, &tmpGs) {
 		log.Printf("[VSSEcho][Party %v] VSSSend Verify FAIL, g_s=%v, but prod(g^F(index))=%v \n", p.PID, piReceived.Gs.String(), tmpGs.String())
+		return false
 	}
 
 	//Verify KZG.VerifyEval(CZjk,0,0,WZjk0) == 1 && CBjk == CZjk * g^Fj(k) for k in [1,2t+1]
-- 
2.43.0


From 609e36ec75006f68d33ccc9e55d13a8712c9f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 02/38] fix: endorse a resharing only if all of its 2t+1
 evaluations verify

---
 internal/party/ProactivizeAndShareDist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index a77084e..2f77de9 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -275,7 +275,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			var vjki = make([]bls.Fr, 2*p.F+2)
 			var wjki = make([]bls.G1Point, 2*p.F+2)
-			var verifyReshareOK = false
+			var verifyReshareOK = true
 
 			for k := uint32(1); k <= 2*p.F+1; k++ {
 				vjki_bytes := [32]byte{}
@@ -288,9 +288,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				var position_vjki bls.Fr
 				bls.AsFr(&position_vjki, uint64(p.PID+1))
 				p.mutexKZG.Lock()
-				verifyReshareOK = p.KZG.CheckProofSingle(&C, &wjki[k], &position_vjki, &vjki[k])
+				verifyPointOK := p.KZG.CheckProofSingle(&C, &wjki[k], &position_vjki, &vjki[k])
 				p.mutexKZG.Unlock()
-				if !verifyReshareOK {
+				if !verifyPointOK {
+					verifyReshareOK = false
 					log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v FAIL, CQ[%v][%v]: %s, vjki:%v, wjki:%s\n", p.PID, m.Sender, indexJ, k, CQ[indexJ][k].String(), vjki[k].String(), wjki[k].String())
 					// break
 				}
-- 
2.43.0


From 4dec7338433b6ae9b53c2cb82e9bdb871b29bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 03/38] fix: combine the no-vote signature from the no-vote
 shares

---
 internal/party/message_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 0333d5a..713bdcc 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -225,7 +225,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					if err1 == nil && err2 == nil {
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
-							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
+							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
 						}
-- 
2.43.0


From db095965dbfa67e82f4e731077a6d40122c22110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 04/38] fix: combine the endorsement signature with the
 threshold of the keys (2t+1)

---
 internal/party/ProactivizeAndShareDist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 2f77de9..35d23b4 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -418,12 +418,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 					SSig[k] = append(SSig[k], SSigElement{mSender + 1, ReceivedSigShare})
 					if !CombinedFlag[k] && uint32(len(SSig[k])) >= 2*p.F+1 {
-						var tmpSig = make([][]byte, len(SSig))
+						var tmpSig = make([][]byte, len(SSig[k]))
 						for i := 0; i < len(SSig[k]); i++ {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
-- 
2.43.0


From 084556e57bce45fe59a86d01941c3f1421f9412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 05/38] fix: do not exit the process when a provable broadcast
 sender is dishonest

---
 internal/party/pb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 6e3fff6..e91d841 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -63,7 +63,7 @@ func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, val
 		if validator != nil {
 			err2 := validator(p, ID, sender, payload.Value, payload.Validation)
 			if err2 != nil {
-				log.Fatalln(err2)
+				log.Printf("[PB][Party %v] invalid Value message from party %v: %v\n", p.PID, sender, err2)
 				return nil, nil, false //sender is dishonest
 			}
 		}
-- 
2.43.0


From d52a8f1cac8280d61d5c5e3fe0807afc9fb771c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 06/38] fix: accept a provable broadcast value only from its
 designated sender

---
 internal/party/pb.go | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index e91d841..f0f02c0 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -53,36 +53,40 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 
 //Receiver is run by the receiver of a instance of provable broadcast
 func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, validator func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
-	select {
-	case <-ctx.Done():
-		return nil, nil, false
-	case m := <-p.GetMessage("Value", ID):
-		//TODO:check sender == m.Sender
-
-		payload := (core.Decapsulation("Value", m)).(*protobuf.Value)
-		if validator != nil {
-			err2 := validator(p, ID, sender, payload.Value, payload.Validation)
-			if err2 != nil {
-				log.Printf("[PB][Party %v] invalid Value message from party %v: %v\n", p.PID, sender, err2)
-				return nil, nil, false //sender is dishonest
+	for {
+		select {
+		case <-ctx.Done():
+			return nil, nil, false
+		case m := <-p.GetMessage("Value", ID):
+			if m.Sender != sender {
+				continue //only the designated sender may provide the value
 			}
-		}
 
-		h := sha3.Sum512(payload.Value)
-		var buf bytes.Buffer
-		buf.Write([]byte("Echo"))
-		buf.Write(ID)
-		buf.Write(h[:])
-		sm := buf.Bytes()
-		sigShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, sm) //sign("Echo"||ID||h)
+			payload := (core.Decapsulation("Value", m)).(*protobuf.Value)
+			if validator != nil {
+				err2 := validator(p, ID, sender, payload.Value, payload.Validation)
+				if err2 != nil {
+					log.Printf("[PB][Party %v] invalid Value message from party %v: %v\n", p.PID, sender, err2)
+					return nil, nil, false //sender is dishonest
+				}
+			}
 
-		echoMessage := core.Encapsulation("Echo", ID, p.PID, &protobuf.Echo{
-			Sigshare: sigShare,
-		})
-		p.Send(echoMessage, sender)
+			h := sha3.Sum512(payload.Value)
+			var buf bytes.Buffer
+			buf.Write([]byte("Echo"))
+			buf.Write(ID)
+			buf.Write(h[:])
+			sm := buf.Bytes()
+			sigShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, sm) //sign("Echo"||ID||h)
 
-		return payload.Value, payload.Validation, true
+			echoMessage := core.Encapsulation("Echo", ID, p.PID, &protobuf.Echo{
+				Sigshare: sigShare,
+			})
+			p.Send(echoMessage, sender)
 
+			return payload.Value, payload.Validation, true
+
+		}
 	}
 
 }
-- 
2.43.0


From 4120ceabe3e7593f92711f9e3adedb4828dddad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 07/38] fix: count at most one RBCEcho per sender

---
 internal/party/RBC.go | 589 +++++++++++++++++++++---------------------
 1 file changed, 297 insertions(+), 292 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index d4c58ff..1b012ce 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -1,292 +1,297 @@
-package party
-
-import (
-	"bytes"
-	"crypto/sha256"
-	"log"
-	"sync"
-
-	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
-	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
-	"github.com/klauspost/reedsolomon"
-	"google.golang.org/protobuf/proto"
-)
-
-// received message shard (RS code) in RBC
-type mReceived struct {
-	j  int
-	mj []byte
-}
-
-type hm struct {
-	h string
-	m string
-}
-
-//RBC propose
-func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
-	if err != nil {
-		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
-	}
-	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
-}
-
-func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
-	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
-}
-
-func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
-	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
-	var mLen int                 // the length of M_i
-	//here we ignore the validator function P(.)
-
-	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
-	var EchoMessageMap = make(map[string]map[string]int)
-
-	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
-	var T = make(map[string][]mReceived)
-	var MaxReadyNumber = int(0)
-	var MaxReadyHash []byte
-
-	var isReadySent = false
-	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
-	var mutexEchoMap sync.Mutex
-	var mutexReadyMap sync.Mutex
-
-	var readyChan = make(chan hm, p.N)
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
-
-	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
-	for i := uint32(0); i < p.N; i++ {
-		hasReceivedReady[i] = false
-	}
-
-	//handle RBCPropose message
-	go func() {
-		m := <-p.GetMessage("RBCPropose", ID)
-		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
-		M := m.Data
-		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-		hLocal := sha256.New()
-		hLocal.Write(M)
-
-		//encode
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, _ := RSEncoder.Split(M)
-		RSEncoder.Encode(shards)
-		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
-		copy(M1, shards)
-		for j := uint32(0); j < p.N; j++ {
-			//encapsulate, append the length of M at the end of hash
-			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
-			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
-			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
-
-			/*
-				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
-				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
-				// t+1 RBCReady messages and t+1 matching RBCEcho messages
-				if p.PID == 0 || p.PID == 1 {
-					if index != uint32(2) {
-						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-					}
-				} else {
-					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-				}
-			*/
-		}
-
-	}()
-
-	//handle Echo Message, line 11-12, Algo 4 in RBC paper
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCEcho", ID)
-			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCEcho
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := string(payloadMessage.Hash)
-			mi := string(payloadMessage.M)
-
-			mutexEchoMap.Lock()
-			_, ok1 := EchoMessageMap[hash]
-			if ok1 {
-				//ok1 denotes that the map of hash exists
-				counter, ok2 := EchoMessageMap[hash][mi]
-				if ok2 {
-					//ok2 denotes that the map of (hash,M) exists, then increase the counter
-					EchoMessageMap[hash][mi] = counter + 1
-				} else {
-					//else establish the map of (hash,M) and set it as 1
-					EchoMessageMap[hash][mi] = 1
-				}
-			} else {
-				//else establish the map of (hash,M) and set it as 1
-				EchoMessageMap[hash] = make(map[string]int)
-				EchoMessageMap[hash][mi] = 1
-			}
-
-			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
-			mutex.Lock()
-			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
-				isReadySent = true
-				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-				if err != nil {
-					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
-				}
-				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
-			}
-
-			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
-				//ready to send RBCReady when receive t+1 RBCReady messages from the others
-				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
-				readyChan <- hm{hash, mi}
-			}
-			mutex.Unlock() //TODO: move this unlock into if statement
-			mutexEchoMap.Unlock()
-			//finish this goroutine when RBCReady is sent
-			if isReadySent {
-				break
-			}
-		}
-	}()
-
-	//handle RBCReady messages
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCReady", ID)
-			if hasReceivedReady[m.Sender] {
-				continue
-			} else {
-				hasReceivedReady[m.Sender] = true
-			}
-			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCReady
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := payloadMessage.Hash
-			hashString := string(hash)
-			mJ := payloadMessage.M
-			j := m.Sender //sender's pid, i.e., the index of the sender
-
-			mutexReadyMap.Lock()
-			//avoid the replay attack
-
-			//
-			_, ok := T[hashString]
-			if ok {
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			} else {
-				T[hashString] = make([]mReceived, 0)
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			}
-
-			if len(T[hashString]) > MaxReadyNumber {
-				MaxReadyNumber = len(T[hashString])
-				MaxReadyHash = hash
-			}
-
-			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			mutex.Lock()
-			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
-				mutex.Unlock()
-				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
-				//wait for t+1 matching RBCEcho messages
-				var res hm
-				for {
-					res = <-readyChan
-					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
-						mutexEchoMap.Unlock()
-						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-						mutex.Lock()
-						isReadySent = true
-						mutex.Unlock()
-						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
-						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-						if err != nil {
-							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
-						}
-						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
-						break
-					}
-					mutexEchoMap.Unlock()
-				}
-			} else {
-				mutex.Unlock()
-			}
-
-			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
-				RSDecStartChan <- true
-			}
-			mutexReadyMap.Unlock()
-
-			//FIXME: kill this for loop when the RBC message is reconstructed
-			// isRec := <-RecDone
-			// if isRec {
-			// 	break
-			// }
-		}
-	}()
-
-	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
-	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
-	for r := uint32(0); r <= p.F; r++ {
-		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
-				break
-			}
-		}
-
-		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
-		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
-		mutexReadyMap.Unlock()
-
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
-		}
-
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
-		}
-
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
-
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
-		mReconstructed = mReconstructed[0:mLenNew]
-
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
-
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
-			var replyMessage protobuf.Message
-			proto.Unmarshal(mReconstructed, &replyMessage)
-			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-			return &replyMessage
-		}
-	}
-	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
-	return nil
-}
+package party
+
+import (
+	"bytes"
+	"crypto/sha256"
+	"log"
+	"sync"
+
+	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
+	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
+	"github.com/klauspost/reedsolomon"
+	"google.golang.org/protobuf/proto"
+)
+
+// received message shard (RS code) in RBC
+type mReceived struct {
+	j  int
+	mj []byte
+}
+
+type hm struct {
+	h string
+	m string
+}
+
+//RBC propose
+func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
+	if err != nil {
+		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
+	}
+	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
+}
+
+func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
+	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
+}
+
+func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
+	var mLen int                 // the length of M_i
+	//here we ignore the validator function P(.)
+
+	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
+	var EchoMessageMap = make(map[string]map[string]int)
+
+	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
+	var T = make(map[string][]mReceived)
+	var MaxReadyNumber = int(0)
+	var MaxReadyHash []byte
+
+	var isReadySent = false
+	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
+	var mutexEchoMap sync.Mutex
+	var mutexReadyMap sync.Mutex
+
+	var readyChan = make(chan hm, p.N)
+	var RSDecStartChan = make(chan bool, 1)
+	var RSDecStart = false
+
+	var hasReceivedEcho = make(map[uint32]bool)  //count each sender's echo only once
+	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
+	for i := uint32(0); i < p.N; i++ {
+		hasReceivedReady[i] = false
+	}
+
+	//handle RBCPropose message
+	go func() {
+		m := <-p.GetMessage("RBCPropose", ID)
+		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
+		M := m.Data
+		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
+		hLocal := sha256.New()
+		hLocal.Write(M)
+
+		//encode
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		shards, _ := RSEncoder.Split(M)
+		RSEncoder.Encode(shards)
+		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
+		copy(M1, shards)
+		for j := uint32(0); j < p.N; j++ {
+			//encapsulate, append the length of M at the end of hash
+			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
+			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
+			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
+
+			/*
+				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
+				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
+				// t+1 RBCReady messages and t+1 matching RBCEcho messages
+				if p.PID == 0 || p.PID == 1 {
+					if index != uint32(2) {
+						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+					}
+				} else {
+					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+				}
+			*/
+		}
+
+	}()
+
+	//handle Echo Message, line 11-12, Algo 4 in RBC paper
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCEcho", ID)
+			if hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
+			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCEcho
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := string(payloadMessage.Hash)
+			mi := string(payloadMessage.M)
+
+			mutexEchoMap.Lock()
+			_, ok1 := EchoMessageMap[hash]
+			if ok1 {
+				//ok1 denotes that the map of hash exists
+				counter, ok2 := EchoMessageMap[hash][mi]
+				if ok2 {
+					//ok2 denotes that the map of (hash,M) exists, then increase the counter
+					EchoMessageMap[hash][mi] = counter + 1
+				} else {
+					//else establish the map of (hash,M) and set it as 1
+					EchoMessageMap[hash][mi] = 1
+				}
+			} else {
+				//else establish the map of (hash,M) and set it as 1
+				EchoMessageMap[hash] = make(map[string]int)
+				EchoMessageMap[hash][mi] = 1
+			}
+
+			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
+			mutex.Lock()
+			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
+				isReadySent = true
+				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+				if err != nil {
+					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
+				}
+				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
+			}
+
+			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
+				//ready to send RBCReady when receive t+1 RBCReady messages from the others
+				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
+				readyChan <- hm{hash, mi}
+			}
+			mutex.Unlock() //TODO: move this unlock into if statement
+			mutexEchoMap.Unlock()
+			//finish this goroutine when RBCReady is sent
+			if isReadySent {
+				break
+			}
+		}
+	}()
+
+	//handle RBCReady messages
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCReady", ID)
+			if hasReceivedReady[m.Sender] {
+				continue
+			} else {
+				hasReceivedReady[m.Sender] = true
+			}
+			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCReady
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := payloadMessage.Hash
+			hashString := string(hash)
+			mJ := payloadMessage.M
+			j := m.Sender //sender's pid, i.e., the index of the sender
+
+			mutexReadyMap.Lock()
+			//avoid the replay attack
+
+			//
+			_, ok := T[hashString]
+			if ok {
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			} else {
+				T[hashString] = make([]mReceived, 0)
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			}
+
+			if len(T[hashString]) > MaxReadyNumber {
+				MaxReadyNumber = len(T[hashString])
+				MaxReadyHash = hash
+			}
+
+			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
+			mutex.Lock()
+			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
+				mutex.Unlock()
+				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
+				//wait for t+1 matching RBCEcho messages
+				var res hm
+				for {
+					res = <-readyChan
+					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
+					mutexEchoMap.Lock()
+					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
+						mutexEchoMap.Unlock()
+						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
+						mutex.Lock()
+						isReadySent = true
+						mutex.Unlock()
+						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
+						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+						if err != nil {
+							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
+						}
+						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
+						break
+					}
+					mutexEchoMap.Unlock()
+				}
+			} else {
+				mutex.Unlock()
+			}
+
+			// upon receiving |T| >= 2t+1 = n-t
+			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecStart = true
+				RSDecStartChan <- true
+			}
+			mutexReadyMap.Unlock()
+
+			//FIXME: kill this for loop when the RBC message is reconstructed
+			// isRec := <-RecDone
+			// if isRec {
+			// 	break
+			// }
+		}
+	}()
+
+	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
+	<-RSDecStartChan
+	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
+	for r := uint32(0); r <= p.F; r++ {
+		for {
+			if uint32(MaxReadyNumber) >= p.N-p.F+r {
+				break
+			}
+		}
+
+		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
+		mutexReadyMap.Lock()
+		copy(mReceivedTemp, T[string(MaxReadyHash)])
+		mutexReadyMap.Unlock()
+
+		var M = make([][]byte, p.N)
+		for i := uint32(0); i < p.N-p.F+r; i++ {
+			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
+		}
+
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		ok, _ := RSEncoder.Verify(M)
+		if !ok {
+			RSEncoder.Reconstruct(M)
+		}
+
+		//parse M and remove the padding zeros
+		var mReconstructed = make([]byte, 0)
+		for i := uint32(0); i < p.N-(p.F+1); i++ {
+			mReconstructed = append(mReconstructed, M[i]...)
+		}
+
+		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
+		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
+		//the first 256/8 bytes in MaxReadyHash are the hash value
+		MaxReadyHash = MaxReadyHash[:256/8]
+		mReconstructed = mReconstructed[0:mLenNew]
+
+		hNew := sha256.New()
+		hNew.Write(mReconstructed)
+
+		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
+			var replyMessage protobuf.Message
+			proto.Unmarshal(mReconstructed, &replyMessage)
+			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
+			return &replyMessage
+		}
+	}
+	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
+	return nil
+}
-- 
2.43.0


From e11d3ea4e375ca533f01dc742f9c54fba4ce839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 08/38] fix: amplify RBCReady only with the shard echoed for
 the same hash

---
 internal/party/RBC.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 1b012ce..352cf9f 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -209,7 +209,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 					res = <-readyChan
 					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
 					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
+					if res.h == hashString && uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
 						mutexEchoMap.Unlock()
 						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
 						mutex.Lock()
-- 
2.43.0


From 0045e2b746f0ce9a0f5003f5740a3b02d69ecb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 09/38] fix: keep the hash of the ready quorum intact across
 RBC decoding attempts

---
 internal/party/RBC.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 352cf9f..0057f9a 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -256,7 +256,8 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
 		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
+		readyHash := MaxReadyHash
+		copy(mReceivedTemp, T[string(readyHash)])
 		mutexReadyMap.Unlock()
 
 		var M = make([][]byte, p.N)
@@ -277,15 +278,15 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 		}
 
 		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
+		mLenNew := utils.BytesToInt(readyHash[256/8:])
 		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
+		readyHash = readyHash[:256/8]
 		mReconstructed = mReconstructed[0:mLenNew]
 
 		hNew := sha256.New()
 		hNew.Write(mReconstructed)
 
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
+		if bytes.Equal(hNew.Sum(nil), readyHash) {
 			var replyMessage protobuf.Message
 			proto.Unmarshal(mReconstructed, &replyMessage)
 			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-- 
2.43.0


From 3f7a6dd3308b400414580f06f11e1f6662e43cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 10/38] fix: do not crash on an empty RBC proposal or on
 undersized RBC shards

---
 internal/party/RBC.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 0057f9a..2f6d4fb 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -80,7 +80,11 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 		//encode
 		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, _ := RSEncoder.Split(M)
+		shards, err := RSEncoder.Split(M)
+		if err != nil {
+			log.Printf("[party %v] cannot encode RBCPropose: %v, RBC instance ID: %s", p.PID, err, ID)
+			return
+		}
 		RSEncoder.Encode(shards)
 		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
 		copy(M1, shards)
@@ -281,6 +285,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 		mLenNew := utils.BytesToInt(readyHash[256/8:])
 		//the first 256/8 bytes in MaxReadyHash are the hash value
 		readyHash = readyHash[:256/8]
+		if mLenNew > len(mReconstructed) {
+			continue //a shard of the wrong size
+		}
 		mReconstructed = mReconstructed[0:mLenNew]
 
 		hNew := sha256.New()
-- 
2.43.0


From 3660c7b9efbb2fc872efadd774e1bac786715637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 11/38] fix: read the RBC ready state under its locks

---
 internal/party/RBC.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 2f6d4fb..6c9f195 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -159,10 +159,11 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
 				readyChan <- hm{hash, mi}
 			}
+			readySent := isReadySent
 			mutex.Unlock() //TODO: move this unlock into if statement
 			mutexEchoMap.Unlock()
 			//finish this goroutine when RBCReady is sent
-			if isReadySent {
+			if readySent {
 				break
 			}
 		}
@@ -253,7 +254,10 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
 	for r := uint32(0); r <= p.F; r++ {
 		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
+			mutexReadyMap.Lock()
+			enoughReady := uint32(MaxReadyNumber) >= p.N-p.F+r
+			mutexReadyMap.Unlock()
+			if enoughReady {
 				break
 			}
 		}
-- 
2.43.0


From 02b31ec9cd50b353a2ca08d126c073acdd7adc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 12/38] fix: protect the set of verified ShareDist points with
 a mutex

---
 internal/party/ProactivizeAndShareDist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 35d23b4..e58d9d9 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -517,6 +517,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	}
 	var SB = make([]SBElement, 0)
 	var SComMutex sync.Mutex
+	var SBMutex sync.Mutex // protects SB and SuccessSent
 
 	var startCommitChan = make(chan bool, 1)
 	startCommitChan <- true
@@ -644,6 +645,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			if verifyKZGOk {
 				//log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v SUCCESS\n", p.PID, j)
+				SBMutex.Lock()
 				SB = append(SB, SBElement{
 					index: j,
 					CB:    currentCB,
@@ -672,6 +674,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 					SuccessSentChan <- true
 					//log.Printf("[ShareDist Interpolate][New party %v] Interpolate done\n", p.PID)
 				}
+				SBMutex.Unlock()
 			} else {
 				log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v FAIL\n", p.PID, j)
 			}
-- 
2.43.0


From da6123845ea71c3afe2f54c2b46545a6639547d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 13/38] fix: discard all stored commitments of a rejected
 Commit message

---
 internal/party/ProactivizeAndShareDist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index e58d9d9..9746050 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -192,7 +192,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			if revertFlag {
 				//discard the previously stored CQjk
-				for k := 0; uint32(k) < 2*p.F+1; k++ {
+				for k := 1; uint32(k) <= 2*p.F+1; k++ {
 					CQ[j][k] = bls.ZeroG1
 					//startRecover[j] <- true
 				}
-- 
2.43.0


From 4581456f1551a9f3b483407e64de8caebb4dc93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 14/38] fix: report an error instead of blocking when a send
 channel is not initialized

---
 internal/party/party_utils.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index d676632..25eea89 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -113,11 +113,20 @@ func (p *HonestParty) GetMessage(messageType string, ID []byte) chan *protobuf.M
 }
 
 func (p *HonestParty) checkSendChannelsInit() bool {
-	return p.sendToNextChannels != nil
+	return allChannelsInit(p.sendChannels)
 }
 
 func (p *HonestParty) checkInitSendChannelsToNext() bool {
-	return p.sendToNextChannels != nil
+	return allChannelsInit(p.sendToNextChannels)
+}
+
+func allChannelsInit(channels []chan *protobuf.Message) bool {
+	for _, c := range channels {
+		if c == nil {
+			return false
+		}
+	}
+	return true
 }
 
 //w_0,w_1,...,w^(3f+1) will be used to represent values of a polynomial.
-- 
2.43.0


From bbdc2b91ec60bbb3ba51efaaf74f411dc9b2037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 15/38] fix: drop messages whose sender is not a committee
 member

---
 pkg/core/dispatche.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/dispatche.go b/pkg/core/dispatche.go
index 9b3368f..6eda5db 100644
--- a/pkg/core/dispatche.go
+++ b/pkg/core/dispatche.go
@@ -14,6 +14,9 @@ func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *syn
 	go func() { //dispatcher
 		for {
 			m := <-(receiveChannel)
+			if m.Sender >= N && m.Type != "VSSSend" {
+				continue //only the dealer of a VSS instance is not a committee member
+			}
 			value1, _ := dispatcheChannels.LoadOrStore(m.Type, new(sync.Map))
 
 			value2, _ := value1.(*sync.Map).LoadOrStore(string(m.Id), make(chan *protobuf.Message, N*N)) //ch change the size to N*N
-- 
2.43.0


From 62eb5e16ee2b61b06260e756b223f11f05b59ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 16/38] fix: count at most one Finish message per sender

---
 internal/party/message_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 713bdcc..bdecbec 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -29,6 +29,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//FinishMessage Handler
 	go func() {
 		FrLength := 0
+		received := make(map[uint32]bool) //count each sender only once
 		for {
 			select {
 			case <-ctx.Done():
@@ -43,7 +44,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				buf.Write(h[:])
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||index||2||h)
-				if err == nil {
+				if err == nil && !received[m.Sender] {
+					received[m.Sender] = true
 					Fr.Store(m.Sender, payload)
 					FrLength++
 					if FrLength == int(2*p.F+1) {
-- 
2.43.0


From 9b9ab0442ced4e37f583339d0277ffa0fa2cfed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 17/38] fix: combine signature shares of distinct parties only

---
 internal/party/message_handler.go | 15 +++++++++++----
 internal/party/party_utils.go     |  6 ++++++
 internal/party/pb.go              |  4 +++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index bdecbec..e247466 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -64,6 +64,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 		buf.Write(IDr)
 		coinName := buf.Bytes()
 		coins := [][]byte{}
+		received := make(map[uint32]bool) //count each sender only once
 		for {
 			select {
 			case <-ctx.Done():
@@ -72,7 +73,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				payload := core.Decapsulation("Done", m).(*protobuf.Done)
 				err := tblsScheme.VerifyPartial(p.SigPK, coinName, payload.CoinShare) //verifyshare("Done"||ID||r)
 
-				if err == nil {
+				if err == nil && p.shareFromSender(payload.CoinShare, m.Sender) && !received[m.Sender] {
+					received[m.Sender] = true
 					coins = append(coins, payload.CoinShare)
 					if len(coins) == int(p.F+1) {
 
@@ -124,6 +126,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//PreVoteMessage Handler
 	go func() {
 		PNr := [][]byte{}
+		received := make(map[uint32]bool) //count each sender only once
 		for {
 			select {
 			case <-ctx.Done():
@@ -157,7 +160,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf.Write(IDr)
 					sm := buf.Bytes()
 					err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sig) //verifyShare(false||ID||r)
-					if err == nil {
+					if err == nil && p.shareFromSender(payload.Sig, m.Sender) && !received[m.Sender] {
+						received[m.Sender] = true
 						PNr = append(PNr, payload.Sig)
 						if len(PNr) > int(2*p.F) {
 							noSignature, _ := tblsScheme.Recover(p.SigPK, sm, PNr, int(2*p.F+1), int(p.N))
@@ -180,6 +184,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		received := make(map[uint32]bool) //count each sender only once
 		for {
 			select {
 			case <-ctx.Done():
@@ -198,7 +203,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					err1 := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||1||h)
 					sm[len([]byte("Echo"))+len(IDrj[l])] = 2
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
-					if err1 == nil && err2 == nil {
+					if err1 == nil && err2 == nil && p.shareFromSender(payload.Sigshare, m.Sender) && !received[m.Sender] {
+						received[m.Sender] = true
 						VYr = append(VYr, payload.Sigshare)
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
@@ -224,7 +230,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf2.Write(IDr)
 					sm2 := buf2.Bytes()
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm2, payload.Sigshare) //verifyShare("Unlock"||ID||r)
-					if err1 == nil && err2 == nil {
+					if err1 == nil && err2 == nil && p.shareFromSender(payload.Sigshare, m.Sender) && !received[m.Sender] {
+						received[m.Sender] = true
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index 25eea89..d80adf0 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -11,6 +11,12 @@ import (
 	"sync"
 )
 
+//shareFromSender tells whether a signature share is the one of the party that sent it
+func (p *HonestParty) shareFromSender(sigShare []byte, sender uint32) bool {
+	index, err := p.tblsScheme.IndexOf(sigShare)
+	return err == nil && index == int(sender)
+}
+
 //InitReceiveChannel sets up the listener and Init the receiveChannel
 func (p *HonestParty) InitReceiveChannel() error {
 	p.dispatchChannels = core.MakeDispatcheChannels(core.MakeReceiveChannel(p.portList[p.PID]), p.N)
diff --git a/internal/party/pb.go b/internal/party/pb.go
index f0f02c0..70cf2b0 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -23,6 +23,7 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 	p.Broadcast(valueMessage)
 
 	sigs := [][]byte{}
+	received := make(map[uint32]bool) //count each sender only once
 	h := sha3.Sum512(value)
 	var buf bytes.Buffer
 	buf.Write([]byte("Echo"))
@@ -39,7 +40,8 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 			payload := core.Decapsulation("Echo", m).(*protobuf.Echo)
 			err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyshare("Echo"||ID||h)
 
-			if err == nil {
+			if err == nil && p.shareFromSender(payload.Sigshare, m.Sender) && !received[m.Sender] {
+				received[m.Sender] = true
 				sigs = append(sigs, payload.Sigshare)
 				if len(sigs) > int(2*p.F) {
 					signature, _ := tblsScheme.Recover(p.SigPK, sm, sigs, int(2*p.F+1), int(p.N))
-- 
2.43.0


From e439946bd9a4cbb7181cfad80e393edc0ce458f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 18/38] fix: leave a round with mixed votes also when the last
 vote received is a No

---
 internal/party/message_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index e247466..4d7c3e8 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -184,6 +184,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		var yesValue, yesSig []byte       //taken from a valid Yes vote
 		received := make(map[uint32]bool) //count each sender only once
 		for {
 			select {
@@ -206,6 +207,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					if err1 == nil && err2 == nil && p.shareFromSender(payload.Sigshare, m.Sender) && !received[m.Sender] {
 						received[m.Sender] = true
 						VYr = append(VYr, payload.Sigshare)
+						yesValue, yesSig = payload.Value, payload.Sig
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 0
@@ -237,6 +239,10 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
+						} else if len(VYr) > 0 && len(VYr)+len(VNr) > int(2*p.F) {
+							voteFlagChannel <- 2
+							voteOtherChannel <- yesValue
+							voteOtherChannel <- yesSig
 						}
 					}
 				}
-- 
2.43.0


From f4b5e3f64a68c0cc6227040cab0ae5956a398fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 19/38] fix: count Prepare and ShareReduce messages of distinct
 old parties only

---
 internal/party/ShareReduce.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 249a37c..653c87b 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -69,7 +69,8 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 	C := bls.ZeroG1
 	wJ := bls.ZeroG1
 
-	var cnt = 0 //used to judge whether to execute p.ShareReduceStart_new = time.Now()
+	var cnt = 0                                //used to judge whether to execute p.ShareReduceStart_new = time.Now()
+	var hasReceived = make(map[uint32]bool) //count each old party only once
 
 	for {
 		m := <-p.GetMessage("ShareReduce", ID)
@@ -77,6 +78,9 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 			p.ShareReduceStart_new = time.Now()
 		}
 		//log.Printf("[ShareReduce][New party %v] Receive ShareReduce message from %v\n", p.PID, m.Sender)
+		if hasReceived[m.Sender] {
+			continue
+		}
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
 
@@ -96,6 +100,7 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		p.mutexKZG.Unlock()
 
 		if verified {
+			hasReceived[m.Sender] = true
 			cStr := string(ShareReduceData.C)
 			_, ok2 := ShareReduceMap[cStr]
 			if ok2 {
@@ -172,13 +177,18 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 
 	ProofMap := make(map[string]int)
 
-	var cnt = 0 //used to judge whether to execute p.PrepareStart_new = time.Now()
+	var cnt = 0                                //used to judge whether to execute p.PrepareStart_new = time.Now()
+	var hasReceived = make(map[uint32]bool) //count each old party only once
 
 	for {
 		msg := <-p.GetMessage("Prepare", ID)
 		if cnt == 0 {
 			p.PrepareStart_new = time.Now()
 		}
+		if hasReceived[msg.Sender] {
+			continue
+		}
+		hasReceived[msg.Sender] = true
 		hash := sha256.New()
 		hash.Write(msg.Data)
 		hashToString := string(hash.Sum(nil))
-- 
2.43.0


From c0a01e5cf9f39c17787c9e581f2773ce2f4194b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 20/38] fix: count at most one Success message per sender

---
 internal/party/ProactivizeAndShareDist.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 9746050..5eba6e4 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -684,12 +684,17 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// Receive Success Message
 	// var ReceivedSuccessData protobuf.Success
 	var SuccessCount = uint32(0)
+	var SuccessReceived = make(map[uint32]bool) //count each sender only once
 	var EnterNormalChan = make(chan bool, 1)
 
 	go func() {
 		<-SuccessSentChan
 		for {
-			<-p.GetMessage("Success", ID)
+			m := <-p.GetMessage("Success", ID)
+			if SuccessReceived[m.Sender] {
+				continue
+			}
+			SuccessReceived[m.Sender] = true
 			// the content is useless here
 			// proto.Unmarshal(m.Data, &ReceivedSuccessData)
 			SuccessCount++
-- 
2.43.0


From 3e5d3175f1b0a3a98fd0c0e962d2d58a994527b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 21/38] fix: use one Recover message per index and sender, for
 existing indices only

---
 internal/party/ProactivizeAndShareDist.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 5eba6e4..75ccee3 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -350,17 +350,22 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	RecoverMsgChan := make([]chan RecoverMsg, p.N+1) // index 0 is not used
 	for i := uint32(0); i <= p.N; i++ {
-		RecoverMsgChan[i] = make(chan RecoverMsg)
+		RecoverMsgChan[i] = make(chan RecoverMsg, p.N)
 	}
 
 	//Recover - receiving messages
 	go func() {
+		var received = make(map[[2]uint32]bool) //one Recover message per index and sender
 		for {
 			m := <-p.GetMessage("Recover", ID)
 
 			var ReceivedRecoverData protobuf.Recover
 			proto.Unmarshal(m.Data, &ReceivedRecoverData)
 			k := ReceivedRecoverData.Index
+			if k < 1 || k > p.N || received[[2]uint32{k, m.Sender}] {
+				continue
+			}
+			received[[2]uint32{k, m.Sender}] = true
 			//log.Printf("[Proactivize Recover][New party %v] Have received Recover message from party %v, k=%v\n", p.PID, m.Sender, k)
 			var tmpV_Array [32]byte
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
@@ -401,7 +406,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
 
-				if KZGVerifyOk && (SigShareVerifyOk == nil) {
+				if KZGVerifyOk && (SigShareVerifyOk == nil) && p.shareFromSender(ReceivedSigShare, mSender) {
 					mutexSRec.Lock()
 					SRec[k] = append(SRec[k], SRecElement{mSender + 1, vkij})
 					//log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v SUCCESS, k=%v. Current Srec[%v] lenth: %v\n", p.PID, mSender, k, k, len(SRec[k]))
-- 
2.43.0


From 527f30a2ef4778517f56c999b3893bead2b06712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 22/38] fix: refresh only with recovered polynomials

---
 internal/party/ProactivizeAndShareDist.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 75ccee3..ff87097 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -448,7 +448,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				} else {
 					log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v FAIL, k=%v. Current Srec[%v] lenth: %v\\n", p.PID, mSender, k, k, len(SRec[k]))
 				}
-				if MVBASent {
+				if flgRec[k] && CombinedFlag[k] {
 					//log.Printf("[Proactivize Recover][New party %v] Recover done\n", p.PID)
 					break
 				}
@@ -469,13 +469,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	for _, j := range MVBARes.J {
 
-		//wait until all related flgCom = 1
-		if !flgCom[j] {
-			<-RecDone[j]
-			p.mutexKZG.Lock()
-			CQ[j][p.PID+1] = *p.KZG.CommitToPoly(Q[j][p.PID+1])
-			p.mutexKZG.Unlock()
-		}
+		//wait until Q[j] is recovered, which also implies flgCom[j] = 1
+		<-RecDone[j]
 
 		for i := 0; uint32(i) < p.F+1; i++ {
 			var tmpCoeff bls.Fr
-- 
2.43.0


From 7e1b751a84389e9cdd521a9239c4d7eb0a7d9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 23/38] fix: use one Reshare and one ShareDist message per
 sender

---
 internal/party/ProactivizeAndShareDist.go | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index ff87097..2230d05 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -258,10 +258,22 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// 	SigShare[i] = make(map[uint32][]byte)
 	// }
 
+	var mutexReshare sync.Mutex
+	var ReshareReceived = make(map[uint32]bool) //use one Reshare message per sender
 	for ctr := uint32(1); ctr <= p.N; ctr++ {
 		//ctr is not used here
 		go func(ctr uint32) {
 			m := <-p.GetMessage("Reshare", ID)
+			for {
+				mutexReshare.Lock()
+				duplicate := ReshareReceived[m.Sender]
+				ReshareReceived[m.Sender] = true
+				mutexReshare.Unlock()
+				if !duplicate {
+					break
+				}
+				m = <-p.GetMessage("Reshare", ID)
+			}
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
@@ -613,10 +625,22 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	var SuccessSent = false
 	var SuccessSentChan = make(chan bool, 1)
 
+	var mutexShareDist sync.Mutex
+	var ShareDistReceived = make(map[uint32]bool) //use one ShareDist message per sender
 	for index := uint32(0); index < p.N; index++ {
 		//index is not used here
 		go func(index uint32) {
 			m := <-p.GetMessage("ShareDist", ID)
+			for {
+				mutexShareDist.Lock()
+				duplicate := ShareDistReceived[m.Sender]
+				ShareDistReceived[m.Sender] = true
+				mutexShareDist.Unlock()
+				if !duplicate {
+					break
+				}
+				m = <-p.GetMessage("ShareDist", ID)
+			}
 
 			var ReceivedShareDistData protobuf.ShareDist
 			proto.Unmarshal(m.Data, &ReceivedShareDistData)
-- 
2.43.0


From 406745212d6fbcd70264d7aa1fd9438c839f4814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 24/38] fix: wait for a verified Commit message through its
 channel instead of an unsynchronized flag

---
 internal/party/ProactivizeAndShareDist.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 2230d05..63ce384 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -280,10 +280,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			indexJ := m.Sender + 1
 			//wait until flgCom[indexJ]=1
-			if !flgCom[indexJ] {
-				// fmt.Printf("[Proactivize Vote][New party %v] Waiting for flgCom[%v]=1\n", p.PID, indexJ)
-				<-startVote[indexJ]
-			}
+			<-startVote[indexJ]
 
 			var vjki = make([]bls.Fr, 2*p.F+2)
 			var wjki = make([]bls.G1Point, 2*p.F+2)
@@ -397,11 +394,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	MVBAResChan := make(chan []byte, 1)
 	for k := uint32(1); k <= p.N; k++ {
 		go func(k uint32) {
-			if !flgCom[k] {
-				//wait until flgCom[k]=1
-				// log.Printf("[Proactivize Recover][New party %v] Waiting for flgCom[%v]=1\n", p.PID, k)
-				<-startRecover[k]
-			}
+			//wait until flgCom[k]=1
+			<-startRecover[k]
 			for {
 				ReceivedRecoverMsg := <-RecoverMsgChan[k]
 				var mSender = ReceivedRecoverMsg.sender
-- 
2.43.0


From 06d3b48516d3b1a34a8d52e03be5902f743bd52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 25/38] fix: do not crash on malformed group elements in
 received messages

---
 internal/party/ProactivizeAndShareDist.go | 18 +++++++++---------
 internal/party/ShareReduce.go             |  6 +++---
 internal/party/VSS.go                     |  2 +-
 internal/party/party_utils.go             | 21 ++++++++++++++++-----
 4 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 63ce384..c1ee3fe 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -150,7 +150,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			//TODO: This part can be replaced by verifying the commitment of KZG (reducing the communication cost from O(2t+1) to O(1))
 			GFjList := make([]bls.G1Point, 2*p.F+1)
 			for i := uint32(0); i < 2*p.F+1; i++ {
-				tmpGFj, _ := bls.FromCompressedG1(ReceivedData.Pi[i].GFj)
+				tmpGFj := decodeG1(ReceivedData.Pi[i].GFj)
 				bls.CopyG1(&GFjList[i], tmpGFj)
 			}
 			p.mutexKZG.Lock()
@@ -167,10 +167,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			//parse piJ from RBC1J
 			for k := uint32(0); k < 2*p.F+1; k++ {
-				CQk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CBj)
-				CZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CZj)
-				wZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].WZ0)
-				GFk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].GFj)
+				CQk := decodeG1(ReceivedData.Pi[k].CBj)
+				CZk := decodeG1(ReceivedData.Pi[k].CZj)
+				wZk := decodeG1(ReceivedData.Pi[k].WZ0)
+				GFk := decodeG1(ReceivedData.Pi[k].GFj)
 
 				var mulRes bls.G1Point
 				p.mutexKZG.Lock()
@@ -290,7 +290,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				vjki_bytes := [32]byte{}
 				copy(vjki_bytes[:], ReceivedReshareData.Qk[k-1])
 				bls.FrFrom32(&vjki[k], vjki_bytes)
-				tmpWjki, _ := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
+				tmpWjki := decodeG1(ReceivedReshareData.WQk[k-1])
 				wjki[k] = *tmpWjki
 
 				C := CQ[indexJ][k]
@@ -380,7 +380,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
 			var v bls.Fr
 			bls.FrFrom32(&v, tmpV_Array)
-			w, _ := bls.FromCompressedG1(ReceivedRecoverData.W)
+			w := decodeG1(ReceivedRecoverData.W)
 			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}
 		}
 	}()
@@ -580,7 +580,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		go func(j uint32) {
 			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)))
 			NewCommitData := m.Data
-			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
+			ReceivedCB := decodeG1(NewCommitData)
 			var oldCB bls.G1Point
 			if j <= 2*p.F+1 {
 				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
@@ -654,7 +654,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var vjShareDist_Array [32]byte
 			copy(vjShareDist_Array[:], ReceivedShareDistData.B)
 			bls.FrFrom32(&vjShareDist, vjShareDist_Array)
-			wjShareDist, _ = bls.FromCompressedG1(ReceivedShareDistData.WB)
+			wjShareDist = decodeG1(ReceivedShareDistData.WB)
 			bls.AsFr(&i, uint64(p.PID+1))
 
 			p.mutexKZG.Lock()
diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 653c87b..09c4c17 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -84,8 +84,8 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
 
-		tmpC, _ := bls.FromCompressedG1(ShareReduceData.C)
-		tmpwJ, _ := bls.FromCompressedG1(ShareReduceData.W)
+		tmpC := decodeG1(ShareReduceData.C)
+		tmpwJ := decodeG1(ShareReduceData.W)
 		tmpvJ_bytes := [32]byte{}
 		copy(tmpvJ_bytes[:], ShareReduceData.V)
 		bls.CopyG1(&C, tmpC)
@@ -204,7 +204,7 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 			proto.Unmarshal(msg.Data, ProofMsg)
 
 			for i := 1; uint32(i) < 2*p.F+2; i++ {
-				tmp, _ := bls.FromCompressedG1(ProofMsg.Commitments[i])
+				tmp := decodeG1(ProofMsg.Commitments[i])
 				bls.CopyG1(&p.Proof.PiContents[i].CBj, tmp)
 			}
 
diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index 50e1d03..d3596c1 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -36,7 +36,7 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 		copy(value_byte[:], payloadMessage.BijList[j])
 		bls.FrFrom32(&polyValueFromSend[j], value_byte)
 
-		wit_raw, _ := bls.FromCompressedG1(payloadMessage.WBijList[j])
+		wit_raw := decodeG1(payloadMessage.WBijList[j])
 		bls.CopyG1(&witnessFromSend[j], wit_raw)
 	}
 
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index d80adf0..9a2f506 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -213,6 +213,17 @@ func GetLagrangeCoefficients(deg uint32, x []bls.Fr, targetIndex bls.Fr, lambda
 	}
 }
 
+//decodeG1 decodes a received point. A malformed encoding is read as the identity, which
+//its sender could have sent as well, so that it is up to the verification of the message.
+func decodeG1(data []byte) *bls.G1Point {
+	point, err := bls.FromCompressedG1(data)
+	if err != nil {
+		point = new(bls.G1Point)
+		bls.CopyG1(point, &bls.ZeroG1)
+	}
+	return point
+}
+
 func EncapsulateVSSSend(pi *Pi, BijList []bls.Fr, WBijList []bls.G1Point, F uint32) []byte {
 	var msg = new(protobuf.VSSSend)
 	msg.Pi = new(protobuf.Pi)
@@ -254,15 +265,15 @@ func EncapsulateVSSSend(pi *Pi, BijList []bls.Fr, WBijList []bls.G1Point, F uint
 
 func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
 
-	Gs_raw, _ := bls.FromCompressedG1(m.Gs)
+	Gs_raw := decodeG1(m.Gs)
 	bls.CopyG1(&pi.Gs, Gs_raw)
 
 	for j := uint32(1); j <= 2*F+1; j++ {
 
-		CBj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CBj)
-		CZj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CZj)
-		WZ0_raw, _ := bls.FromCompressedG1(m.PiContents[j].WZ0)
-		gFj_raw, _ := bls.FromCompressedG1(m.PiContents[j].GFj)
+		CBj_raw := decodeG1(m.PiContents[j].CBj)
+		CZj_raw := decodeG1(m.PiContents[j].CZj)
+		WZ0_raw := decodeG1(m.PiContents[j].WZ0)
+		gFj_raw := decodeG1(m.PiContents[j].GFj)
 
 		bls.CopyG1(&pi.PiContents[j].CBj, CBj_raw)
 		bls.CopyG1(&pi.PiContents[j].CZj, CZj_raw)
-- 
2.43.0


From bec32faf7182f579da1a06fcc6bbd0279cef565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 26/38] fix: do not crash on received messages with missing
 list elements

---
 internal/party/ProactivizeAndShareDist.go | 8 ++++++++
 internal/party/ShareReduce.go             | 4 ++++
 internal/party/VSS.go                     | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index c1ee3fe..c8380e9 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -146,6 +146,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
+			if uint32(len(ReceivedData.Pi)) < 2*p.F+1 {
+				log.Printf("[Proactivize Verify][New party %v] Commit message is incomplete, j=%v\n", p.PID, j)
+				return
+			}
 
 			//TODO: This part can be replaced by verifying the commitment of KZG (reducing the communication cost from O(2t+1) to O(1))
 			GFjList := make([]bls.G1Point, 2*p.F+1)
@@ -276,6 +280,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			}
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
+			if uint32(len(ReceivedReshareData.Qk)) < 2*p.F+1 || uint32(len(ReceivedReshareData.WQk)) < 2*p.F+1 {
+				log.Printf("[Proactivize Vote][New party %v] Reshare message from party %v is incomplete\n", p.PID, m.Sender)
+				return
+			}
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
 
 			indexJ := m.Sender + 1
diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 09c4c17..d0bcad3 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -202,6 +202,10 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 			ProofMsg := new(protobuf.Prepare)
 
 			proto.Unmarshal(msg.Data, ProofMsg)
+			if uint32(len(ProofMsg.Commitments)) < 2*p.F+2 {
+				log.Printf("[Prepare][New party %v] Prepare message is incomplete\n", p.PID)
+				continue
+			}
 
 			for i := 1; uint32(i) < 2*p.F+2; i++ {
 				tmp := decodeG1(ProofMsg.Commitments[i])
diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index d3596c1..ac362de 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -28,6 +28,11 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	if err != nil {
 		log.Printf("[VSSEcho][Party %v] Unmarshal err: %v\n", p.PID, err)
 	}
+	if payloadMessage.Pi == nil || uint32(len(payloadMessage.Pi.PiContents)) < 2*p.F+2 ||
+		uint32(len(payloadMessage.BijList)) < 2*p.F+2 || uint32(len(payloadMessage.WBijList)) < 2*p.F+2 {
+		log.Printf("[VSSEcho][Party %v] VSSSend is incomplete\n", p.PID)
+		return
+	}
 	piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
 
 	for j := uint32(1); j < 2*p.F+2; j++ {
-- 
2.43.0


From 6da9fdb32e0f0eaa84050b74f2ebc86ae82677c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 27/38] fix: do not crash when a reliable broadcast cannot be
 reconstructed

---
 internal/party/ProactivizeAndShareDist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index c8380e9..3a54f2f 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -143,6 +143,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
 			m := p.RBCReceive([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)))
+			if m == nil {
+				return
+			}
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
@@ -587,6 +590,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
 			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)))
+			if m == nil {
+				return
+			}
 			NewCommitData := m.Data
 			ReceivedCB := decodeG1(NewCommitData)
 			var oldCB bls.G1Point
-- 
2.43.0


From 7f31970bf2178847bc55665663b373beed44db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 28/38] fix: survive the failure of the connection to or from
 another party

---
 pkg/core/receive.go |  9 +++++----
 pkg/core/send.go    | 12 ++++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index 67e775a..0f73aaf 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -53,15 +53,16 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 					buf := make([]byte, length)
 					_, err2 := io.ReadFull(conn, buf)
 					if err1 != nil || err2 != nil {
-						fmt.Printf("The receive channel has broken down, err1: %v, err2:%v\n", err1, err2)
-						log.Fatalln("The receive channel has broken down", err1, err2)
+						log.Printf("The receive channel has broken down, err1: %v, err2:%v\n", err1, err2)
+						conn.Close()
+						return //the other connections are not affected
 					}
 					//Do Unmarshal
 					var m protobuf.Message
 					err3 := proto.Unmarshal(buf, &m)
 					if err3 != nil {
-						fmt.Printf("Unmarshal error: %v\n", err3)
-						log.Fatalln(err3)
+						log.Printf("Unmarshal error: %v\n", err3)
+						continue //skip the malformed message
 					}
 					//Push protobuf.Message to receivechannel
 					(channel) <- &m
diff --git a/pkg/core/send.go b/pkg/core/send.go
index e31d3e7..350fd0f 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -50,14 +50,18 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 			_, err2 := conn.Write(utils.IntToBytes(length))
 			_, err3 := conn.Write(byt)
 			if err2 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err2)
-				log.Fatalln("The send channel has broken down!", err2)
+				log.Println("The send channel has broken down!", err2)
+				break
 			}
 			if err3 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err3)
-				log.Fatalln("The send channel has broken down!", err3)
+				log.Println("The send channel has broken down!", err3)
+				break
 			}
 		}
+		//the peer is gone: drop its messages, so that this party can still serve the others
+		conn.Close()
+		for range channel {
+		}
 	}(conn, sendChannel)
 
 	return sendChannel
-- 
2.43.0


From d49224596b4ae3da9ac9fb787c742214aec15cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 29/38] fix: serialize field elements with leading zero bytes
 in the uint256 and big.Int backends

---
 internal/bls/bignum_hol256.go | 4 ++--
 internal/bls/bignum_pure.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/bls/bignum_hol256.go b/internal/bls/bignum_hol256.go
index 6873c39..1f13db9 100755
--- a/internal/bls/bignum_hol256.go
+++ b/internal/bls/bignum_hol256.go
@@ -48,13 +48,13 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*u256.Int)(src).Bytes()
+	b := (*u256.Int)(src).Bytes32()
 	last := len(b) - 1
 	// reverse endianness, u256.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
 		b[i], b[last-i] = b[last-i], b[i]
 	}
-	copy(v[:], b)
+	copy(v[:], b[:])
 	return
 }
 
diff --git a/internal/bls/bignum_pure.go b/internal/bls/bignum_pure.go
index 40c74c8..10c5bb3 100755
--- a/internal/bls/bignum_pure.go
+++ b/internal/bls/bignum_pure.go
@@ -36,7 +36,7 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*big.Int)(src).Bytes()
+	b := (*big.Int)(src).FillBytes(make([]byte, 32))
 	last := len(b) - 1
 	// reverse endianness, u256.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From 787e52d5ea5ee5bbfe857b7a6a68013316ce6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 30/38] fix: reject mismatching lengths in the herumi linear
 combination as the kilic backend does

---
 internal/bls/bls_hbls.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/bls/bls_hbls.go b/internal/bls/bls_hbls.go
index 88cb9fe..64c5289 100755
--- a/internal/bls/bls_hbls.go
+++ b/internal/bls/bls_hbls.go
@@ -144,6 +144,9 @@ func FromCompressedG2(v []byte) (*G2Point, error) {
 }
 
 func LinCombG1(numbers []G1Point, factors []Fr) *G1Point {
+	if len(numbers) != len(factors) {
+		panic("got LinCombG1 numbers/factors length mismatch")
+	}
 	var out G1Point
 	// We're just using unsafe to cast elements that are an alias anyway, no problem.
 	// Go doesn't let us do the cast otherwise without copy.
-- 
2.43.0


From 48d6f657bb6fd545c9785abff935555cc877a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 31/38] fix: reject a bit-reversal length that is not a power
 of two

---
 internal/polycommit/reverse_bit_order.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/polycommit/reverse_bit_order.go b/internal/polycommit/reverse_bit_order.go
index cfbccea..972ab2c 100755
--- a/internal/polycommit/reverse_bit_order.go
+++ b/internal/polycommit/reverse_bit_order.go
@@ -88,7 +88,7 @@ func reverseBitsLimited(length uint32, value uint32) uint32 {
 }
 
 func reverseBitOrder(length uint32, swap func(i, j uint32)) {
-	if !(length > 0 || (length&(length-1) == 0)) {
+	if length&(length-1) != 0 {
 		panic("length is not a power of 2")
 	}
 	// swap bits:
-- 
2.43.0


From 860ef5f807d9cb6e6cd779050a7401e63c99bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 32/38] fix: compute x^n in ComputeProofMulti starting from one

---
 internal/polycommit/kzg_multi_proofs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/polycommit/kzg_multi_proofs.go b/internal/polycommit/kzg_multi_proofs.go
index dca9c9c..7aa705b 100755
--- a/internal/polycommit/kzg_multi_proofs.go
+++ b/internal/polycommit/kzg_multi_proofs.go
@@ -22,6 +22,7 @@ func (ks *KZGSettings) ComputeProofMulti(poly []bls.Fr, x uint64, n uint64) *bls
 	// TODO: inefficient, could use squaring, or maybe BLS lib offers a power method?
 	// TODO: for small ranges, maybe compute pow(x, n, mod) in uint64?
 	var xPowN, tmp bls.Fr
+	bls.CopyFr(&xPowN, &bls.ONE)
 	for i := uint64(0); i < n; i++ {
 		bls.MulModFr(&tmp, &xPowN, &xFr)
 		bls.CopyFr(&xPowN, &tmp)
-- 
2.43.0


From 6c4c54e06930ac889480717d67378cbff9af48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 33/38] fix: do not log the shares of the threshold signing
 keys

---
 internal/party/keygen.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/internal/party/keygen.go b/internal/party/keygen.go
index 975333c..acd2336 100644
--- a/internal/party/keygen.go
+++ b/internal/party/keygen.go
@@ -91,11 +91,7 @@ func GenCoefficientsFile(N int, T int) {
 
 	// pripoly
 	pripoly := share.NewPriPoly(suit.G2(), T, x, suit.RandomStream())
-	npoints := pripoly.Shares(N)
-	log.Println("the coefficients written to file \"coefficients\" are:")
-	for i := 0; i < N; i++ {
-		log.Println(npoints[i].V)
-	}
+	log.Printf("writing the coefficients for %v parties to file \"coefficients\"\n", N)
 	coeff := make([]kyber.Scalar, T)
 	coeff_bytes := make([][]byte, T)
 	for i := 0; i < T; i++ {
@@ -107,11 +103,7 @@ func GenCoefficientsFile(N int, T int) {
 
 	x_new := suit.G1().Scalar().Pick(random)
 	pripoly_new := share.NewPriPoly(suit.G2(), T, x_new, suit.RandomStream())
-	npoints_new := pripoly_new.Shares(N)
-	log.Println("the coefficients written to file \"coefficients_new\" are:")
-	for i := 0; i < N; i++ {
-		log.Println(npoints_new[i].V)
-	}
+	log.Printf("writing the coefficients for %v parties to file \"coefficients_new\"\n", N)
 	coeff_new := make([]kyber.Scalar, T)
 	coeff_bytes_new := make([][]byte, T)
 	for i := 0; i < T; i++ {
-- 
2.43.0


From c198fde8eae9c10ef3854df9e2ba34f336c594f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 34/38] fix: do not log received share values

---
 internal/party/ProactivizeAndShareDist.go | 2 +-
 internal/party/ShareReduce.go             | 2 +-
 internal/party/VSS.go                     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 3a54f2f..22b1f2d 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -312,7 +312,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				p.mutexKZG.Unlock()
 				if !verifyPointOK {
 					verifyReshareOK = false
-					log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v FAIL, CQ[%v][%v]: %s, vjki:%v, wjki:%s\n", p.PID, m.Sender, indexJ, k, CQ[indexJ][k].String(), vjki[k].String(), wjki[k].String())
+					log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v FAIL, CQ[%v][%v]: %s, wjki:%s\n", p.PID, m.Sender, indexJ, k, CQ[indexJ][k].String(), wjki[k].String())
 					// break
 				}
 			}
diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index d0bcad3..dea88c6 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -127,7 +127,7 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 				break
 			}
 		} else {
-			log.Printf("[ShareReduce][New party %v] Verify Reduce message from old party %v FAIL. C: %s, v: %v, w: %s\n", p.PID, m.Sender, C.String(), vJ, wJ.String())
+			log.Printf("[ShareReduce][New party %v] Verify Reduce message from old party %v FAIL. C: %s, w: %s\n", p.PID, m.Sender, C.String(), wJ.String())
 		}
 		cnt++
 	}
diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index ac362de..4a46fab 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -122,7 +122,7 @@ func (p *HonestParty) VerifyVSSSendReceived(polyValue []bls.Fr, witness []bls.G1
 		verifyPoint := p.KZG.CheckProofSingle(&piReceived.PiContents[j].CBj, &witness[j], &position, &polyValue[j])
 		p.mutexKZG.Unlock()
 		if !verifyPoint {
-			log.Printf("[VSSEcho][Party %v] VSSSend KZGVerify FAIL when verify v'ji and w'ji, i=%v, CBj[%v]=%v, polyValue[%v]=%v, witness[%v]=%v\n", p.PID, p.PID+1, j, piReceived.PiContents[j].CBj, j, polyValue[j], j, witness[j])
+			log.Printf("[VSSEcho][Party %v] VSSSend KZGVerify FAIL when verify v'ji and w'ji, i=%v, CBj[%v]=%v\n", p.PID, p.PID+1, j, piReceived.PiContents[j].CBj)
 			return false
 		}
 	}
-- 
2.43.0


From 9c22d8ca7cd3a365753437ee6cd711ec4ccd8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 35/38] fix: keep recovered polynomials apart from the ones
 other goroutines read

---
 internal/party/ProactivizeAndShareDist.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 22b1f2d..f0f448c 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -360,6 +360,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		SRec[i] = make([]SRecElement, 0)
 		SSig[i] = make([]SSigElement, 0)
 	}
+	//RecoveredQ[k] is the polynomial Q_k(x,p.PID+1) recovered from the points of the other parties
+	var RecoveredQ = make([][]bls.Fr, p.N+1)
 	var InterpolatePolyX = make([]bls.Fr, p.N+1)
 	var InterpolatePolyY = make([]bls.Fr, p.N+1)
 	var CombinedSig = make([][]byte, p.N+1) // start from 1
@@ -433,7 +435,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							bls.CopyFr(&InterpolatePolyY[i], &SRec[k][i].v)
 						}
 
-						Q[k][p.PID+1] = polyring.LagrangeInterpolate(int(p.F), InterpolatePolyX[:p.F+1], InterpolatePolyY[:p.F+1])
+						RecoveredQ[k] = polyring.LagrangeInterpolate(int(p.F), InterpolatePolyX[:p.F+1], InterpolatePolyY[:p.F+1])
 						flgRec[k] = true
 						RecDone[k] <- true
 					}
@@ -491,7 +493,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 		for i := 0; uint32(i) < p.F+1; i++ {
 			var tmpCoeff bls.Fr
-			bls.AddModFr(&tmpCoeff, &Qsum[i], &Q[j][p.PID+1][i])
+			bls.AddModFr(&tmpCoeff, &Qsum[i], &RecoveredQ[j][i])
 			bls.CopyFr(&Qsum[i], &tmpCoeff)
 		}
 
-- 
2.43.0


From ca92194a796ce161e4a74f9d02c7b29cc9d7c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 36/38] fix: keep the commitments and witnesses of the new
 shares for the next handoff

---
 internal/party/ProactivizeAndShareDist.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index f0f448c..45b9e72 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -523,6 +523,15 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	p.ProactivizeEnd = time.Now()
 	ProactivizeDone <- true
 
+	//the next handoff starts from the commitments of the refreshed shares; the old ones are kept to verify NewCommit
+	var oldCBList = make([]bls.G1Point, 2*p.F+2)
+	for i := uint32(1); i <= 2*p.F+1; i++ {
+		bls.CopyG1(&oldCBList[i], &p.Proof.PiContents[i].CBj)
+		p.mutexKZG.Lock()
+		bls.AddG1(&p.Proof.PiContents[i].CBj, &oldCBList[i], &CQsum[i])
+		p.mutexKZG.Unlock()
+	}
+
 	//-------------------------------------ShareDist-------------------------------------
 	//Init
 	// log.Printf("[ShareDist][New party %v] Start ShareDist\n", p.PID)
@@ -599,11 +608,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			ReceivedCB := decodeG1(NewCommitData)
 			var oldCB bls.G1Point
 			if j <= 2*p.F+1 {
-				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
+				bls.CopyG1(&oldCB, &oldCBList[j])
 			} else {
 				CBList := make([]bls.G1Point, 2*p.F+2)
 				for i := uint32(1); i <= 2*p.F+1; i++ {
-					bls.CopyG1(&CBList[i], &p.Proof.PiContents[i].CBj)
+					bls.CopyG1(&CBList[i], &oldCBList[i])
 				}
 				p.mutexKZG.Lock()
 				oldCB = p.InterpolateComOrWit(2*p.F, j, CBList[1:])
@@ -697,6 +706,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 					}
 
 					p.fullShare = polyring.LagrangeInterpolate(2*int(p.F), DistX, DistY)
+					//the next handoff starts from the witnesses of the new fullShare
+					for t := uint32(0); t < 2*p.F+1; t++ {
+						bls.CopyFr(&p.witnessIndexes[t], &DistX[t])
+						bls.CopyG1(&p.witness[t], &SB[t].w)
+					}
 					//log.Printf("[ShareDist Interpolate][New party %v] Recover the fullShare B'(i,y):\n", p.PID)
 					//log.Printf("(B'(%v,y)):%s",p.PID+1,PolyToString(p.fullShare))
 
-- 
2.43.0


From 40b256bee43a99a5c5706491d971fd88704f83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 37/38] fix: forward the Halt proof before stopping, so that a
 decision reaches every party

---
 internal/party/message_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 4d7c3e8..d257f33 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -115,6 +115,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||2||h)
 				if err == nil {
+					//forward the proof: a faulty sender may have sent it to this party only
+					p.Broadcast(core.Encapsulation("Halt", IDr, p.PID, payload))
 					haltChannel <- payload.Value
 					return
 				}
-- 
2.43.0


From 64e02514e913d9b256258fc57fd1dad531a0a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 38/38] fix: restore the line endings of RBC.go, which an
 earlier fix had changed

---
 internal/party/RBC.go | 618 +++++++++++++++++++++---------------------
 1 file changed, 309 insertions(+), 309 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 6c9f195..3b259eb 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -1,309 +1,309 @@
-package party
-
-import (
-	"bytes"
-	"crypto/sha256"
-	"log"
-	"sync"
-
-	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
-	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
-	"github.com/klauspost/reedsolomon"
-	"google.golang.org/protobuf/proto"
-)
-
-// received message shard (RS code) in RBC
-type mReceived struct {
-	j  int
-	mj []byte
-}
-
-type hm struct {
-	h string
-	m string
-}
-
-//RBC propose
-func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
-	if err != nil {
-		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
-	}
-	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
-}
-
-func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
-	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
-}
-
-func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
-	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
-	var mLen int                 // the length of M_i
-	//here we ignore the validator function P(.)
-
-	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
-	var EchoMessageMap = make(map[string]map[string]int)
-
-	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
-	var T = make(map[string][]mReceived)
-	var MaxReadyNumber = int(0)
-	var MaxReadyHash []byte
-
-	var isReadySent = false
-	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
-	var mutexEchoMap sync.Mutex
-	var mutexReadyMap sync.Mutex
-
-	var readyChan = make(chan hm, p.N)
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
-
-	var hasReceivedEcho = make(map[uint32]bool)  //count each sender's echo only once
-	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
-	for i := uint32(0); i < p.N; i++ {
-		hasReceivedReady[i] = false
-	}
-
-	//handle RBCPropose message
-	go func() {
-		m := <-p.GetMessage("RBCPropose", ID)
-		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
-		M := m.Data
-		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-		hLocal := sha256.New()
-		hLocal.Write(M)
-
-		//encode
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, err := RSEncoder.Split(M)
-		if err != nil {
-			log.Printf("[party %v] cannot encode RBCPropose: %v, RBC instance ID: %s", p.PID, err, ID)
-			return
-		}
-		RSEncoder.Encode(shards)
-		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
-		copy(M1, shards)
-		for j := uint32(0); j < p.N; j++ {
-			//encapsulate, append the length of M at the end of hash
-			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
-			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
-			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
-
-			/*
-				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
-				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
-				// t+1 RBCReady messages and t+1 matching RBCEcho messages
-				if p.PID == 0 || p.PID == 1 {
-					if index != uint32(2) {
-						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-					}
-				} else {
-					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-				}
-			*/
-		}
-
-	}()
-
-	//handle Echo Message, line 11-12, Algo 4 in RBC paper
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCEcho", ID)
-			if hasReceivedEcho[m.Sender] {
-				continue
-			}
-			hasReceivedEcho[m.Sender] = true
-			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCEcho
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := string(payloadMessage.Hash)
-			mi := string(payloadMessage.M)
-
-			mutexEchoMap.Lock()
-			_, ok1 := EchoMessageMap[hash]
-			if ok1 {
-				//ok1 denotes that the map of hash exists
-				counter, ok2 := EchoMessageMap[hash][mi]
-				if ok2 {
-					//ok2 denotes that the map of (hash,M) exists, then increase the counter
-					EchoMessageMap[hash][mi] = counter + 1
-				} else {
-					//else establish the map of (hash,M) and set it as 1
-					EchoMessageMap[hash][mi] = 1
-				}
-			} else {
-				//else establish the map of (hash,M) and set it as 1
-				EchoMessageMap[hash] = make(map[string]int)
-				EchoMessageMap[hash][mi] = 1
-			}
-
-			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
-			mutex.Lock()
-			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
-				isReadySent = true
-				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-				if err != nil {
-					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
-				}
-				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
-			}
-
-			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
-				//ready to send RBCReady when receive t+1 RBCReady messages from the others
-				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
-				readyChan <- hm{hash, mi}
-			}
-			readySent := isReadySent
-			mutex.Unlock() //TODO: move this unlock into if statement
-			mutexEchoMap.Unlock()
-			//finish this goroutine when RBCReady is sent
-			if readySent {
-				break
-			}
-		}
-	}()
-
-	//handle RBCReady messages
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCReady", ID)
-			if hasReceivedReady[m.Sender] {
-				continue
-			} else {
-				hasReceivedReady[m.Sender] = true
-			}
-			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCReady
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := payloadMessage.Hash
-			hashString := string(hash)
-			mJ := payloadMessage.M
-			j := m.Sender //sender's pid, i.e., the index of the sender
-
-			mutexReadyMap.Lock()
-			//avoid the replay attack
-
-			//
-			_, ok := T[hashString]
-			if ok {
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			} else {
-				T[hashString] = make([]mReceived, 0)
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			}
-
-			if len(T[hashString]) > MaxReadyNumber {
-				MaxReadyNumber = len(T[hashString])
-				MaxReadyHash = hash
-			}
-
-			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			mutex.Lock()
-			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
-				mutex.Unlock()
-				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
-				//wait for t+1 matching RBCEcho messages
-				var res hm
-				for {
-					res = <-readyChan
-					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-					mutexEchoMap.Lock()
-					if res.h == hashString && uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
-						mutexEchoMap.Unlock()
-						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-						mutex.Lock()
-						isReadySent = true
-						mutex.Unlock()
-						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
-						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-						if err != nil {
-							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
-						}
-						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
-						break
-					}
-					mutexEchoMap.Unlock()
-				}
-			} else {
-				mutex.Unlock()
-			}
-
-			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
-				RSDecStartChan <- true
-			}
-			mutexReadyMap.Unlock()
-
-			//FIXME: kill this for loop when the RBC message is reconstructed
-			// isRec := <-RecDone
-			// if isRec {
-			// 	break
-			// }
-		}
-	}()
-
-	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
-	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
-	for r := uint32(0); r <= p.F; r++ {
-		for {
-			mutexReadyMap.Lock()
-			enoughReady := uint32(MaxReadyNumber) >= p.N-p.F+r
-			mutexReadyMap.Unlock()
-			if enoughReady {
-				break
-			}
-		}
-
-		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
-		mutexReadyMap.Lock()
-		readyHash := MaxReadyHash
-		copy(mReceivedTemp, T[string(readyHash)])
-		mutexReadyMap.Unlock()
-
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
-		}
-
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
-		}
-
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
-
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(readyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		readyHash = readyHash[:256/8]
-		if mLenNew > len(mReconstructed) {
-			continue //a shard of the wrong size
-		}
-		mReconstructed = mReconstructed[0:mLenNew]
-
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
-
-		if bytes.Equal(hNew.Sum(nil), readyHash) {
-			var replyMessage protobuf.Message
-			proto.Unmarshal(mReconstructed, &replyMessage)
-			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-			return &replyMessage
-		}
-	}
-	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
-	return nil
-}
+package party
+
+import (
+	"bytes"
+	"crypto/sha256"
+	"log"
+	"sync"
+
+	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
+	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
+	"github.com/klauspost/reedsolomon"
+	"google.golang.org/protobuf/proto"
+)
+
+// received message shard (RS code) in RBC
+type mReceived struct {
+	j  int
+	mj []byte
+}
+
+type hm struct {
+	h string
+	m string
+}
+
+//RBC propose
+func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
+	if err != nil {
+		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
+	}
+	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
+}
+
+func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
+	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
+}
+
+func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
+	var mLen int                 // the length of M_i
+	//here we ignore the validator function P(.)
+
+	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
+	var EchoMessageMap = make(map[string]map[string]int)
+
+	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
+	var T = make(map[string][]mReceived)
+	var MaxReadyNumber = int(0)
+	var MaxReadyHash []byte
+
+	var isReadySent = false
+	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
+	var mutexEchoMap sync.Mutex
+	var mutexReadyMap sync.Mutex
+
+	var readyChan = make(chan hm, p.N)
+	var RSDecStartChan = make(chan bool, 1)
+	var RSDecStart = false
+
+	var hasReceivedEcho = make(map[uint32]bool)  //count each sender's echo only once
+	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
+	for i := uint32(0); i < p.N; i++ {
+		hasReceivedReady[i] = false
+	}
+
+	//handle RBCPropose message
+	go func() {
+		m := <-p.GetMessage("RBCPropose", ID)
+		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
+		M := m.Data
+		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
+		hLocal := sha256.New()
+		hLocal.Write(M)
+
+		//encode
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		shards, err := RSEncoder.Split(M)
+		if err != nil {
+			log.Printf("[party %v] cannot encode RBCPropose: %v, RBC instance ID: %s", p.PID, err, ID)
+			return
+		}
+		RSEncoder.Encode(shards)
+		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
+		copy(M1, shards)
+		for j := uint32(0); j < p.N; j++ {
+			//encapsulate, append the length of M at the end of hash
+			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
+			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
+			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
+
+			/*
+				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
+				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
+				// t+1 RBCReady messages and t+1 matching RBCEcho messages
+				if p.PID == 0 || p.PID == 1 {
+					if index != uint32(2) {
+						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+					}
+				} else {
+					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+				}
+			*/
+		}
+
+	}()
+
+	//handle Echo Message, line 11-12, Algo 4 in RBC paper
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCEcho", ID)
+			if hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
+			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCEcho
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := string(payloadMessage.Hash)
+			mi := string(payloadMessage.M)
+
+			mutexEchoMap.Lock()
+			_, ok1 := EchoMessageMap[hash]
+			if ok1 {
+				//ok1 denotes that the map of hash exists
+				counter, ok2 := EchoMessageMap[hash][mi]
+				if ok2 {
+					//ok2 denotes that the map of (hash,M) exists, then increase the counter
+					EchoMessageMap[hash][mi] = counter + 1
+				} else {
+					//else establish the map of (hash,M) and set it as 1
+					EchoMessageMap[hash][mi] = 1
+				}
+			} else {
+				//else establish the map of (hash,M) and set it as 1
+				EchoMessageMap[hash] = make(map[string]int)
+				EchoMessageMap[hash][mi] = 1
+			}
+
+			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
+			mutex.Lock()
+			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
+				isReadySent = true
+				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+				if err != nil {
+					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
+				}
+				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
+			}
+
+			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
+				//ready to send RBCReady when receive t+1 RBCReady messages from the others
+				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
+				readyChan <- hm{hash, mi}
+			}
+			readySent := isReadySent
+			mutex.Unlock() //TODO: move this unlock into if statement
+			mutexEchoMap.Unlock()
+			//finish this goroutine when RBCReady is sent
+			if readySent {
+				break
+			}
+		}
+	}()
+
+	//handle RBCReady messages
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCReady", ID)
+			if hasReceivedReady[m.Sender] {
+				continue
+			} else {
+				hasReceivedReady[m.Sender] = true
+			}
+			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCReady
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := payloadMessage.Hash
+			hashString := string(hash)
+			mJ := payloadMessage.M
+			j := m.Sender //sender's pid, i.e., the index of the sender
+
+			mutexReadyMap.Lock()
+			//avoid the replay attack
+
+			//
+			_, ok := T[hashString]
+			if ok {
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			} else {
+				T[hashString] = make([]mReceived, 0)
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			}
+
+			if len(T[hashString]) > MaxReadyNumber {
+				MaxReadyNumber = len(T[hashString])
+				MaxReadyHash = hash
+			}
+
+			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
+			mutex.Lock()
+			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
+				mutex.Unlock()
+				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
+				//wait for t+1 matching RBCEcho messages
+				var res hm
+				for {
+					res = <-readyChan
+					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
+					mutexEchoMap.Lock()
+					if res.h == hashString && uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
+						mutexEchoMap.Unlock()
+						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
+						mutex.Lock()
+						isReadySent = true
+						mutex.Unlock()
+						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
+						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+						if err != nil {
+							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
+						}
+						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
+						break
+					}
+					mutexEchoMap.Unlock()
+				}
+			} else {
+				mutex.Unlock()
+			}
+
+			// upon receiving |T| >= 2t+1 = n-t
+			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecStart = true
+				RSDecStartChan <- true
+			}
+			mutexReadyMap.Unlock()
+
+			//FIXME: kill this for loop when the RBC message is reconstructed
+			// isRec := <-RecDone
+			// if isRec {
+			// 	break
+			// }
+		}
+	}()
+
+	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
+	<-RSDecStartChan
+	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
+	for r := uint32(0); r <= p.F; r++ {
+		for {
+			mutexReadyMap.Lock()
+			enoughReady := uint32(MaxReadyNumber) >= p.N-p.F+r
+			mutexReadyMap.Unlock()
+			if enoughReady {
+				break
+			}
+		}
+
+		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
+		mutexReadyMap.Lock()
+		readyHash := MaxReadyHash
+		copy(mReceivedTemp, T[string(readyHash)])
+		mutexReadyMap.Unlock()
+
+		var M = make([][]byte, p.N)
+		for i := uint32(0); i < p.N-p.F+r; i++ {
+			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
+		}
+
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		ok, _ := RSEncoder.Verify(M)
+		if !ok {
+			RSEncoder.Reconstruct(M)
+		}
+
+		//parse M and remove the padding zeros
+		var mReconstructed = make([]byte, 0)
+		for i := uint32(0); i < p.N-(p.F+1); i++ {
+			mReconstructed = append(mReconstructed, M[i]...)
+		}
+
+		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
+		mLenNew := utils.BytesToInt(readyHash[256/8:])
+		//the first 256/8 bytes in MaxReadyHash are the hash value
+		readyHash = readyHash[:256/8]
+		if mLenNew > len(mReconstructed) {
+			continue //a shard of the wrong size
+		}
+		mReconstructed = mReconstructed[0:mLenNew]
+
+		hNew := sha256.New()
+		hNew.Write(mReconstructed)
+
+		if bytes.Equal(hNew.Sum(nil), readyHash) {
+			var replyMessage protobuf.Message
+			proto.Unmarshal(mReconstructed, &replyMessage)
+			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
+			return &replyMessage
+		}
+	}
+	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
+	return nil
+}
-- 
2.43.0

