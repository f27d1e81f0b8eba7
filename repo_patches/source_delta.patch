From 1ead9e781768e8cfc491cb36a972691f41135b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 1/3] fix: LruCache with capacity 1 and the end of the entry
 list

GetNewHead dereferenced the missing predecessor of the only entry of a cache
with capacity 1, and Clear formed a reference past the last entry.
---
 cpp/common/lru_cache.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cpp/common/lru_cache.h b/cpp/common/lru_cache.h
index 036e4dd..c1566dd 100644
--- a/cpp/common/lru_cache.h
+++ b/cpp/common/lru_cache.h
@@ -84,7 +84,7 @@ class LruCache {
     entries_.resize(Capacity);
     for (size_t i = 0; i < entries_.size(); i++) {
       entries_[i].pred = i > 0 ? &entries_[i - 1] : nullptr;
-      entries_[i].succ = i < entries_.size() ? &entries_[i + 1] : nullptr;
+      entries_[i].succ = i + 1 < entries_.size() ? &entries_[i + 1] : nullptr;
     }
     head_ = &entries_[0];
     tail_ = &entries_[Capacity - 1];
@@ -123,12 +123,18 @@ class LruCache {
   }
 
   Entry* GetNewHead() {
-    // Remove tail element.
-    auto new_tail = tail_->pred;
-    new_tail->succ = nullptr;
     if (index_.size() >= entries_.size()) {
       index_.erase(tail_->key);
     }
+
+    // With a single entry there is nothing to reorder.
+    if (head_ == tail_) {
+      return head_;
+    }
+
+    // Remove tail element.
+    auto new_tail = tail_->pred;
+    new_tail->succ = nullptr;
     auto result = tail_;
     tail_ = new_tail;
 
-- 
2.43.0


From 2cee0b09c5d839a8df2d1e3f7f164ef6bf424825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:39 +0000
Subject: [PATCH 2/3] fix: floria rejects transactions whose gas cost overflows

The gas cost was computed modulo 2^256, so a gas price chosen such that price
times limit wraps around bought gas for almost nothing.
---
 go/processor/floria/processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index d83080c..f4c82a4 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
+	"github.com/holiman/uint256"
 )
 
 const (
@@ -275,6 +276,10 @@ func buyGas(transaction tosca.Transaction, context tosca.TransactionContext) err
 
 	// Buy gas
 	senderBalance := context.GetBalance(transaction.Sender)
+	limit := uint256.NewInt(uint64(transaction.GasLimit))
+	if _, overflow := new(uint256.Int).MulOverflow(transaction.GasPrice.ToUint256(), limit); overflow {
+		return fmt.Errorf("gas cost overflow: %v * %v", transaction.GasPrice, transaction.GasLimit)
+	}
 	if senderBalance.Cmp(gas) < 0 {
 		return fmt.Errorf("insufficient balance: %v < %v", senderBalance, gas)
 	}
-- 
2.43.0


From 84659b5e34cf17d4af1667831ebd6e43f9d2c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:31 +0000
Subject: [PATCH 3/3] fix: floria rejects oversized init code before buying gas

---
 go/processor/floria/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index f4c82a4..7833a22 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -65,6 +65,11 @@ func (p *processor) Run(
 		return tosca.Receipt{}, nil
 	}
 
+	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
+		len(transaction.Input) > maxInitCodeSize {
+		return tosca.Receipt{}, nil
+	}
+
 	if err := buyGas(transaction, context); err != nil {
 		return tosca.Receipt{}, nil
 	}
@@ -75,11 +80,6 @@ func (p *processor) Run(
 	}
 	gas -= intrinsicGas
 
-	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
-		len(transaction.Input) > maxInitCodeSize {
-		return tosca.Receipt{}, nil
-	}
-
 	transactionParameters := tosca.TransactionParameters{
 		Origin:     transaction.Sender,
 		GasPrice:   transaction.GasPrice,
-- 
2.43.0

