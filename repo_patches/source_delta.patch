From e91bf872c9351580a95bf58db1b5aec5ec72d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 01/99] fix: quantity pre-decrement decreased nothing and added
 a unit instead

---
 esl/quantity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index 6db2e96..b293e1b 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            ++amount;
+            --amount;
             return *this;
         }
 
-- 
2.43.0


From 10f7faf6d026622f3237f5f51c7e125135c15774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 02/99] fix: inequality of rates compared their conversions to
 boolean

---
 esl/economics/rate.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/esl/economics/rate.hpp b/esl/economics/rate.hpp
index 922c0ff..81d4254 100644
--- a/esl/economics/rate.hpp
+++ b/esl/economics/rate.hpp
@@ -88,10 +88,14 @@ namespace esl::economics {
         //    return boost::rational<integer_type_>::operator==(o);
         //}
 
-        //bool operator!=(const rate<integer_type_> &o) const
-        //{
-        //    return boost::rational<integer_type_>::operator!=(o);
-        //}
+        ///
+        /// \brief  Without this operator, comparing two rates for inequality
+        ///         compares their conversions to boolean.
+        ///
+        [[nodiscard]] bool operator != (const rate<integer_type_> &o) const
+        {
+            return !boost::rational<integer_type_>::operator==(o);
+        }
 
         //bool operator<(const rate<integer_type_> &o) const
         //{
-- 
2.43.0


From b053b83fb8e7af0cfa985bb4bef88853d3f852c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 03/99] fix: converting a negative price with an exchange rate
 used unsigned arithmetic

---
 esl/economics/exchange_rate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 45fadca..dc04b99 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -141,7 +141,9 @@ namespace esl::economics {
         /// \return
         constexpr price operator * (const price &p) const
         {
-            return price(static_cast<int64_t>((p.value * numerator()) / denominator()), p.valuation);
+            return price( (p.value * static_cast<int64_t>(numerator()))
+                          / static_cast<int64_t>(denominator())
+                        , p.valuation);
         }
 
 
-- 
2.43.0


From b1c4903015011dc27529f909335a2bbfd55f2779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 04/99] fix: market identifier code accepted strings that are
 not four characters long

---
 esl/economics/markets/iso_10383.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/iso_10383.hpp b/esl/economics/markets/iso_10383.hpp
index 928cdca..1365349 100644
--- a/esl/economics/markets/iso_10383.hpp
+++ b/esl/economics/markets/iso_10383.hpp
@@ -61,7 +61,8 @@ namespace esl::economics::markets {
         /// \brief Construct an ISO 10383 code from a 4 symbol string.
         /// \param  code A  4 symbol alphanumeric code A-Z | 0-9
         explicit iso_10383(const std::string &code)
-        : iso_10383(std::array<char, 4> {code[0], code[1], code[2], code[3]})
+        : iso_10383( 4 == code.size() ? std::array<char, 4> {code[0], code[1], code[2], code[3]}
+        : throw esl::exception("ISO 10383 market identifier code needs to be four characters"))
         {
 
         }
-- 
2.43.0


From b35196457595202f6570128ebd9c4c15e33af064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 05/99] fix: >= of quotes with different lots was answered
 instead of refused

---
 esl/economics/markets/quote.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index b260df6..408244e 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -232,6 +232,8 @@ namespace esl::economics::markets {
         {
             assert_equal_type_(other);
 
+            assert_equal_lot_(other);
+
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) >= (std::get<variant_>(other.type) * other.lot );
-- 
2.43.0


From f6cd8e797c663b432f180a44262c3f68bb2c1103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 06/99] fix: erasing a stale or repeated index corrupted the
 block pool's free list

---
 esl/computation/block_pool.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index f792404..b67f278 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -62,6 +62,11 @@ namespace esl::computation::block_pool {
         ///
         index_t index = 0;
 
+        ///
+        /// \brief  Whether the block currently holds a live element
+        ///
+        bool occupied = false;
+
         ///
         /// \brief  A pointer to the next free block
         ///
@@ -246,6 +251,9 @@ namespace esl::computation::block_pool {
             }
             highest_ = std::max(highest_, assigned_ + 1);
 
+            i->index    = assigned_;
+            i->occupied = true;
+
             return {assigned_, i};
         }
 
@@ -261,7 +269,7 @@ namespace esl::computation::block_pool {
         {
             block<element_t_> *removed_ = &blocks[i % capacity()];
             
-            if(removed_->index != i) {
+            if(!removed_->occupied || removed_->index != i) {
                 return 0;
                 //throw esl::exception("trying to delete stale order");
             }
@@ -272,6 +280,8 @@ namespace esl::computation::block_pool {
             }
             removed->set = false;
 #endif
+            removed_->occupied = false;
+
             // we removed one element, so if this was the first in the list,
             // we need to move the begin pointer
             if(removed_ == begin_){
-- 
2.43.0


From 0cab3aa73f911dc9768dbf728f245aa869a8a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 07/99] fix: reading an element of a constant block pool
 recursed endlessly

---
 esl/computation/block_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index b67f278..6724f65 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -319,7 +319,7 @@ namespace esl::computation::block_pool {
         /// 
         constexpr const_reference operator [] (index i) const
         {
-            return this->operator[](i);
+            return blocks[i % capacity()].data;
         }
 
         constexpr reference at(index i)
-- 
2.43.0


From f4ca596afa62419260859f0b33a6673c6f84c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 08/99] fix: order book levels were encoded and decoded one
 tick off, and the maximum price was out of range

---
 .../markets/order_book/static_order_book.hpp  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index be02149..190358b 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -147,9 +147,9 @@ namespace esl::economics::markets::order_book {
             /// \return
             size_t span(size_t lot, size_t ticks) const
             {
-                return static_cast<size_t>(
+                return static_cast<size_t>(round(
                     (double(valid_limits.upper) - double(valid_limits.lower)) * lot
-                    * ticks + 1);
+                    * ticks)) + 1;
             }
 
         public:
@@ -181,7 +181,7 @@ namespace esl::economics::markets::order_book {
                     round(
                     (real_ - low_)
                     / (high_ - low_)
-                    * limits_.size())
+                    * (limits_.size() - 1))
                 );
                 return true;
             }
@@ -193,13 +193,16 @@ namespace esl::economics::markets::order_book {
             /// \return
             /*C++20 constexpr*/ quote default_decode(const mathematics::interval<quote> &limits, const limit &limit)
             {
-                auto high_ = double(valid_limits.upper);
-                auto low_  = double(valid_limits.lower);
+                const auto high_ = double(limits.upper);
+                const auto low_  = double(limits.lower);
 
-                auto reverse = round((double(limit) * (high_ - low_)) * limits.lower.lot * limits.lower.lot);
+                const auto real_ = low_ + double(limit) * (high_ - low_) / double(limits_.size() - 1);
 
-                auto intercept_ = low_ * limits.lower.lot * limits.lower.lot;
-                return quote( (reverse/ double(limits_.size()-1) +  intercept_) / limits.lower.lot, valid_limits.lower);
+                // conversion of a real number to a price truncates, so we need
+                // to find the nearest price ourselves
+                const auto &valuation_ = std::get<price>(limits.lower.type).valuation;
+                const auto units_ = std::llround(real_ * limits.lower.lot * valuation_.denominator);
+                return quote(price(units_, valuation_), limits.lower.lot);
             }
 
             ///
-- 
2.43.0


From 4e4195baed9d9a7e2213ae95b1c29753e13d9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 09/99] fix: best bid and ask of the static order book ran out
 of bounds, mixed up sides and ignored cancellations

---
 .../markets/order_book/static_order_book.hpp  | 54 ++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 190358b..f360c30 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -240,8 +240,8 @@ namespace esl::economics::markets::order_book {
                 //  we make sure to set this explicitly
                 limits_.resize(span_, std::make_pair(nullptr, nullptr));
 
-                best_bid_ = &limits_.front();
-                best_ask_ = &limits_.back();
+                best_bid_ = nullptr;
+                best_ask_ = nullptr;
 
                 encode = [&](const mathematics::interval<quote> &limits, const auto &q, auto &l) -> bool {
                     return default_encode(limits, q, l);
@@ -305,7 +305,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> bid() const override
             {
-                if(!best_bid_->first){
+                if(!best_bid_){
                     return {};
                 }
                 std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
@@ -318,7 +318,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> ask() const override
             {
-                if(!best_ask_->first){
+                if(!best_ask_){
                     return {};
                 }
 
@@ -326,6 +326,28 @@ namespace esl::economics::markets::order_book {
                 return decode(valid_limits, limit_);
             }
 
+            ///
+            /// \brief  Moves the best ask to the next higher limit with orders,
+            ///         or to `nullptr` if no sell orders are left
+            ///
+            void next_best_ask()
+            {
+                while(best_ask_ && !best_ask_->first) {
+                    best_ask_ = best_ask_ == &limits_.back() ? nullptr : best_ask_ + 1;
+                }
+            }
+
+            ///
+            /// \brief  Moves the best bid to the next lower limit with orders,
+            ///         or to `nullptr` if no buy orders are left
+            ///
+            void next_best_bid()
+            {
+                while(best_bid_ && !best_bid_->first) {
+                    best_bid_ = best_bid_ == &limits_.front() ? nullptr : best_bid_ - 1;
+                }
+            }
+
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -410,19 +432,11 @@ namespace esl::economics::markets::order_book {
                         if(order.side == limit_order::buy){
                             // increase the best ask, until we find an order, or exhaust the order book
                             // TODO: worst_ask_
-                            for(++best_ask_; best_ask_ <= &limits_.back(); ++best_ask_){
-                                if(best_ask_->first || best_ask_ == &limits_.back()){
-                                    break;
-                                }
-                            }
+                            next_best_ask();
                         }else{
                             // decrease the best bid, until we find an order, or exhaust the order book
                             // TODO: worst_bid_
-                            for(--best_bid_; best_bid_ >= &limits_[0]; --best_bid_){
-                                if(best_bid_->first || best_bid_ == &limits_[0]){
-                                    break;
-                                }
-                            }
+                            next_best_bid();
                         }
                     }
                     break;
@@ -578,9 +592,9 @@ namespace esl::economics::markets::order_book {
 
                 // because we are inserting, the best bid and ask can strictly improve
                 if(limit_order::buy == order.side){
-                    best_bid_ = std::max(best_bid_,  limit_level_);
+                    best_bid_ = best_bid_ ? std::max(best_bid_,  limit_level_) : limit_level_;
                 }else if(order.side == limit_order::sell){
-                    best_ask_ = std::min(best_ask_,  limit_level_);
+                    best_ask_ = best_ask_ ? std::min(best_ask_,  limit_level_) : limit_level_;
                 }
             }
 
@@ -670,6 +684,10 @@ namespace esl::economics::markets::order_book {
                     order_.successor = nullptr;
                 }
 
+                // the order may have been the last one at the best limit
+                next_best_bid();
+                next_best_ask();
+
                 order_.limit    = quote();
                 order_.owner    = identity<agent>();
                 order_.quantity = 0;
@@ -688,7 +706,7 @@ namespace esl::economics::markets::order_book {
 
                 std::uint64_t displayed_ = 0;
                 std::vector<std::pair<std::uint32_t, double>> ask_displayed_;
-                for(auto i = best_ask_; i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
+                for(auto i = best_ask_; i && i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
                     if(!i->first) {
                         continue;
                     }
@@ -718,7 +736,7 @@ namespace esl::economics::markets::order_book {
                 //std::cout << "------------------------------------------------" << std::endl;
 
                 displayed_ = 0;
-                for(auto i = best_bid_; i >= &limits_[0] && displayed_ < levels; --i) {
+                for(auto i = best_bid_; i && i >= &limits_[0] && displayed_ < levels; --i) {
                     if(!i->first) {
                         continue;
                     }
-- 
2.43.0


From 4c2ac6c19f68d26a4df8a4bb8300f152583d8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 10/99] fix: cancelling an order that was matched or cancelled
 before damaged the queue of live orders

---
 .../markets/order_book/static_order_book.hpp  | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index f360c30..abc8a6d 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -608,6 +608,14 @@ namespace esl::economics::markets::order_book {
             {
                 record &order_ = pool_[order];
 
+                // erasing keeps the record itself intact until its block is reused
+                if(0 == pool_.erase(order)) {
+                    // the order was matched fully/cancelled before, so we can't
+                    // do anything here
+                    //LOG(warning) << "canceled dead order << " << order << std::endl;
+                    return;
+                }
+
                 auto side_ = limit_order::side_t::buy;
                 // if there is no bid, or the best bid is lower than this order,
                 // this must be a sell order.
@@ -620,12 +628,6 @@ namespace esl::economics::markets::order_book {
                 auto encode_success_ = encode(valid_limits, order_.limit, limit_index_);
                 limit_type *limit_level_ = &limits_[limit_index_];
 
-                
-                // The order could be cancelled/matched before, and nothing is left at this level
-                if(!limit_level_->first || !limit_level_->second) {
-                    return;
-                }
-
 
                 if(limit_level_->first->index == order) {
                     limits_[limit_index_].first =
@@ -647,15 +649,6 @@ namespace esl::economics::markets::order_book {
 
                 assert(both_set_ || none_set_ );
 
-                auto result_ = pool_.erase(order);
-
-                // canceled
-                if(0 == result_) {
-                    // the order was matched fully/cancelled before, so we can't
-                    // do anything here
-                    //LOG(warning) << "canceled dead order << " << order << std::endl;
-                    return;
-                }
 /*
                 std::cout << "cancelling an order of " << order_.quantity
                           << " times " << order_.limit << std::endl; */ 
-- 
2.43.0


From 5c23e34da4ab9529d6956741d45d5d785dfd55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 11/99] fix: an order with the wrong lot size threw instead of
 being reported invalid

---
 esl/economics/markets/order_book/static_order_book.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index abc8a6d..642527c 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -452,9 +452,11 @@ namespace esl::economics::markets::order_book {
             /// \return
             void insert(const limit_order &order) override
             {
-                if(!valid_limits.contains(order.limit) || 0 >= order.quantity || order.limit.lot != valid_limits.lower.lot ){
+                const bool lot_valid_ = order.limit.lot == valid_limits.lower.lot;
 
-                    if(!valid_limits.contains(order.limit)){
+                if(!lot_valid_ || !valid_limits.contains(order.limit) || 0 >= order.quantity){
+
+                    if(lot_valid_ && !valid_limits.contains(order.limit)){
                         LOG(warning) << "Order invalid because it is outside the accepted range: " << this->valid_limits << std::endl;
                     }
 
@@ -464,7 +466,7 @@ namespace esl::economics::markets::order_book {
                                      << order.quantity << std::endl;
                     }
 
-                    if(order.limit.lot != valid_limits.lower.lot){
+                    if(!lot_valid_){
                         LOG(warning)
                             << "Order invalid because it does not use an "
                                "acceptable lot size "
-- 
2.43.0


From 4940adecd3bdf2cea7fac8a00d04bf472bfc5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 12/99] fix: fill-or-kill orders were filled partially and then
 rested in the static order book

---
 .../markets/order_book/static_order_book.hpp  | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 642527c..c6177d9 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -348,6 +348,24 @@ namespace esl::economics::markets::order_book {
                 }
             }
 
+            ///
+            /// \brief  The quantity on the opposite side of the book that the
+            ///         order can be executed against, up to its own quantity
+            ///
+            [[nodiscard]] std::uint64_t executable(const limit_order &order, const limit_type *level) const
+            {
+                std::uint64_t result_ = 0;
+                const limit_type *i = order.side == limit_order::buy ? best_ask_ : best_bid_;
+                while(i && (order.side == limit_order::buy ? i <= level : i >= level)
+                        && result_ < order.quantity) {
+                    for(auto o = i->first; o; o = o->data.successor) {
+                        result_ += o->data.quantity;
+                    }
+                    i = order.side == limit_order::buy ? i + 1 : i - 1;
+                }
+                return result_;
+            }
+
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -501,6 +519,20 @@ namespace esl::economics::markets::order_book {
 
                 limit_type *limit_level_ = &limits_[limit_index_];
 
+                if(order.lifetime == limit_order::lifetime_t::fill_or_kill
+                   && executable(order, limit_level_) < order.quantity) {
+                    // the order can not be filled entirely, so it is cancelled
+                    reports.emplace_back(execution_report
+                                             ( execution_report::cancel
+                                             , order.side
+                                             , order.quantity
+                                             , basic_book::direct_order
+                                             , order.limit
+                                             , order.owner
+                                             ));
+                    return;
+                }
+
                 if(order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()) {
                     // direct execution: buyer aggressor
                     for(auto al = best_ask_; al <= limit_level_ && 0 < remainder_; ++al){
-- 
2.43.0


From be2fdfad49d94441d4823105ec197d91862c8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 13/99] fix: displayed bid prices were cut off when no ask was
 displayed before them

---
 esl/economics/markets/order_book/static_order_book.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index c6177d9..cb80ac6 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -778,7 +778,7 @@ namespace esl::economics::markets::order_book {
                               << quantity_ << " | "
                               << std::left << std::setw(14)
                         << std::setprecision(int(std::log10(valid_limits.lower.lot)))
-                        << double(decode(valid_limits, i - &limits_[0])) * valid_limits.lower.lot
+                        << std::fixed << double(decode(valid_limits, i - &limits_[0])) * valid_limits.lower.lot
                         //<< double(decode(valid_limits, i - &limits_[0])) * valid_limits.lower.lot
                               << " | "
                               << std::endl;
-- 
2.43.0


From c38c03466df47cc0c4b13a0f5dab82afb5186349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 14/99] fix: displayed ask depth was truncated to 32 bits

---
 esl/economics/markets/order_book/static_order_book.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index cb80ac6..b6e0528 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -732,7 +732,7 @@ namespace esl::economics::markets::order_book {
                 std::cout << std::setfill(' ');
 
                 std::uint64_t displayed_ = 0;
-                std::vector<std::pair<std::uint32_t, double>> ask_displayed_;
+                std::vector<std::pair<std::uint64_t, double>> ask_displayed_;
                 for(auto i = best_ask_; i && i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
                     if(!i->first) {
                         continue;
-- 
2.43.0


From d2a344e9cb5a5d2264476adc81c7b895648b848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 15/99] fix: cancelled orders stayed listed as open in the tree
 order book

---
 esl/economics/markets/order_book/binary_tree_order_book.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index b85441a..7a07238 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -291,6 +291,7 @@ namespace esl::economics::markets::order_book {
                         }
                     }
                 }
+                limit_orders_.erase(o);
             }
         }
 
-- 
2.43.0


From c7e81f152d709399fef9a4bcbc5d764262a5a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 16/99] fix: the tree order book ignored the lifetime of orders

---
 .../order_book/binary_tree_order_book.hpp     | 50 ++++++++++++++++++-
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index 7a07238..09c899e 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -53,6 +53,41 @@ namespace esl::economics::markets::order_book {
 
 
     private:
+        ///
+        /// \brief  The quantity on the opposite side of the book that the
+        ///         order can be executed against
+        ///
+        [[nodiscard]] std::uint64_t executable(const limit_order &order) const
+        {
+            std::uint64_t result_ = 0;
+            if(limit_order::side_t::buy == order.side) {
+                for(auto i = orders_ask.begin(); i != orders_ask.end() && order.limit >= i->first; ++i) {
+                    result_ += i->second.second.quantity;
+                }
+            }else{
+                for(auto i = orders_bid.begin(); i != orders_bid.end() && order.limit <= i->first; ++i) {
+                    result_ += i->second.second.quantity;
+                }
+            }
+            return result_;
+        }
+
+        ///
+        /// \brief  Reports that (the remainder of) an order that is not
+        ///         allowed to rest in the book was cancelled
+        ///
+        void report_cancelled(const limit_order &order, std::uint32_t quantity)
+        {
+            reports.emplace_back(execution_report
+                { execution_report::cancel
+                , order.side
+                , quantity
+                , direct_order
+                , order.limit
+                , order.owner
+                });
+        }
+
         basic_book::order_identifier  next_;
 
 
@@ -110,6 +145,13 @@ namespace esl::economics::markets::order_book {
         /// \param order
         void insert(const limit_order &order) override
         {
+            if(limit_order::lifetime_t::fill_or_kill == order.lifetime
+               && executable(order) < order.quantity) {
+                // the order can not be filled entirely, so it is cancelled
+                report_cancelled(order, order.quantity);
+                return;
+            }
+
             if(limit_order::side_t::buy == order.side){
                 auto remainder_ = order.quantity;
 
@@ -160,7 +202,9 @@ namespace esl::economics::markets::order_book {
                     orders_ask.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && limit_order::lifetime_t::immediate_or_cancel == order.lifetime) {
+                    report_cancelled(order, remainder_);
+                }else if(remainder_ > 0) {
                     // place remainder
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
@@ -226,7 +270,9 @@ namespace esl::economics::markets::order_book {
                     orders_bid.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && limit_order::lifetime_t::immediate_or_cancel == order.lifetime) {
+                    report_cancelled(order, remainder_);
+                }else if(remainder_ > 0) {
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
                     auto pair_          = std::make_pair(next_, placed_);
-- 
2.43.0


From c5ba8f607cad6b9509c022040944b04b8a323058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 17/99] fix: the supply that participants register when logging
 on to an exchange was dropped

---
 esl/economics/markets/centralized_exchange.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index cce9d96..5d64f65 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -224,14 +224,12 @@ namespace esl::economics::markets {
         {
             (void) s;
             for(const auto &t: traded_properties){
-                boost::container::flat_map<identity<agent>, position_report> individual_positions_;
                 position_report position_;
 
                 if(m->supply.find(t) != m->supply.end()){
                     position_.supply = m->supply.find(t)->second;
                 }
-                individual_positions_.emplace(m->sender, position_);
-                positions.emplace(t, individual_positions_);
+                positions[t].insert_or_assign(m->sender, position_);
             }
             return ti.upper;
         }
-- 
2.43.0


From ef5ec9438e001610023470e74df3164252121077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 18/99] fix: cancelling a market data subscription that does
 not exist erased the end iterator

---
 esl/economics/markets/centralized_exchange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 5d64f65..ba60841 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -488,8 +488,8 @@ namespace esl::economics::markets {
                             if(market_data_subscriptions.end() == instrument_) {
                                 continue;
                             }
-                            auto subscription_ = market_data_subscriptions[i].find(m->sender);
-                            market_data_subscriptions[i].erase(subscription_);
+                            // erasing by key has no effect when there is no subscription
+                            instrument_->second.erase(m->sender);
                         }else if(market_data_request_message::stream == m->type) {
                             auto instrument_ = market_data_subscriptions.find(i);
                             if(market_data_subscriptions.end() == instrument_) {
-- 
2.43.0


From d3f3c0bbb3118d3f6dd001d1b3bd82fb2cf65d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 19/99] fix: requests to stream market data were dropped unless
 someone had already subscribed

---
 esl/economics/markets/centralized_exchange.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index ba60841..21923c0 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -491,11 +491,6 @@ namespace esl::economics::markets {
                             // erasing by key has no effect when there is no subscription
                             instrument_->second.erase(m->sender);
                         }else if(market_data_request_message::stream == m->type) {
-                            auto instrument_ = market_data_subscriptions.find(i);
-                            if(market_data_subscriptions.end() == instrument_) {
-                                continue;
-                            }
-                        
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
 
                               centralized_exchange::data_subscription s;
-- 
2.43.0


From 13f1b63d1587bd04fd3dd5c8280966fad4ebd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 20/99] fix: reports of cancelled orders were held back until
 another order arrived at the exchange

---
 .../markets/centralized_exchange.hpp          | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 21923c0..2608147 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -419,6 +419,33 @@ namespace esl::economics::markets {
             return ti.upper;
         }
 
+        ///
+        /// \brief  Sends the report that a cancellation generated to the owner
+        ///         of the cancelled order.
+        ///
+        void report_cancellation( std::shared_ptr<cancel_order_message> m
+                                , simulation::time_interval ti
+                                , std::seed_seq &seed)
+        {
+            auto i = books.find(m->symbol);
+            if(books.end() == i) {
+                return;
+            }
+
+            for(const auto &r: i->second->reports) {
+                simulation::time_point arrival_ = ti.lower;
+                if(communication_model) {
+                    arrival_ += communication_model->sample(identifier, r.owner, seed);
+                }
+                auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
+                response_->sender = (*this);
+                response_->order  = limit_order(m->symbol, r.owner, r.side, r.limit, r.quantity);
+                response_->sent   = ti.lower;
+                response_->report = r;
+            }
+            i->second->reports.clear();
+        }
+
         ///
         /// \brief  Create a market for a collection of tradeable properties.
         ///
@@ -537,6 +564,7 @@ namespace esl::economics::markets {
                                       , std::seed_seq &s) 
                                     { 
                                         cancel(m->symbol, m->order); 
+                                        report_cancellation(m, step, s);
                                         return step.upper;
                                     }
                                  , "cancel existing order");
-- 
2.43.0


From 581b74619db7e5d7c564962ed17754f4216ef59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 21/99] fix: messages of equal priority were handled in reverse
 when scheduled in order

---
 esl/interaction/communicator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index e1fef9d..1133cec 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -128,6 +128,10 @@ namespace esl::interaction {
             if(random == schedule) {
                 std::minstd_rand g(seed);
                 std::shuffle(equal_.begin(), equal_.end(), g);
+            }else{
+                // priorities are visited from high to low, which visits the
+                // messages of equal priority in reverse
+                std::reverse(equal_.begin(), equal_.end());
             }
 
             for(const auto &m : equal_) {
-- 
2.43.0


From bb4bf8fedeab038a2cf6a87553c5fcab1fe5820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 22/99] fix: the computational environment did not compile

---
 esl/computation/environment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1e3f381..cc92bc8 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -232,8 +232,8 @@ namespace esl::computation {
 
                 std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
                 auto progress_ = double(step_.upper - step_.lower) / (step_.upper - simulation_time_start);
-                for(auto i = 0; i < width_; ++i) {
-                    if(i < unsigned int((1.-progress_) * width_)) {
+                for(unsigned int i = 0; i < width_; ++i) {
+                    if(i < static_cast<unsigned int>((1.-progress_) * width_)) {
                         std::cout << '|';
                     } else {
                         std::cout << ' ';
@@ -245,7 +245,7 @@ namespace esl::computation {
         } while(step_.lower < simulation.end);
         
         std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
-        for(auto i = 0; i < width_; ++i) {
+        for(unsigned int i = 0; i < width_; ++i) {
             std::cout << '|';
         }
         std::cout << ']' << std::flush;
-- 
2.43.0


From a50aec711c212206c2ad367a13eb9d10677c5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 23/99] fix: activating and deactivating agents changed the
 lists being iterated, and deactivations were counted again every step

---
 esl/computation/environment.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index cc92bc8..c8940dc 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -59,11 +59,7 @@ namespace esl::computation {
     ///
     size_t environment::activate()
     {
-        size_t result_ = 0;
-        for(const auto &a: activated_) {
-            activate_agent(a);
-            ++result_;
-        }
+        auto result_ = activated_.size();
         activated_.clear();
         return result_;
     }
@@ -73,11 +69,8 @@ namespace esl::computation {
     ///
     size_t environment::deactivate()
     {
-        size_t result_ = 0;
-        for(const auto &a: deactivated_) {
-            deactivate_agent(a);
-            ++result_;
-        }
+        auto result_ = deactivated_.size();
+        deactivated_.clear();
         return result_;
     }
 
-- 
2.43.0


From a41623250524db9f0dfb3929492992aea5a2e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 24/99] fix: a message due before the current time was never
 processed and the step never ended

---
 esl/simulation/model.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e3f7484..f4d9724 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -198,10 +198,9 @@ namespace esl::simulation {
                     auto [ww, _] = wake_up_times.emplace(i, step.lower);
                     w=ww;
                 }
-                // this comparison is strict equality, because an agent
-                // returning a time_point before the current time form act() is
-                // a logical error
-                if(w->second == step.lower){
+                // an agent returning a time_point before the current time from
+                // act() is a logical error, but messages may be due earlier
+                if(w->second <= step.lower){
                     //std::cout << "active " << i << a->describe() << std::endl;
                     acting_agents_.push_back(a);
                 }
-- 
2.43.0


From e61be8e634b8a3d453b83b5a531fd0ea1f1ac0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 25/99] fix: the time of the model was never updated, so that
 stepping it through the environment did not progress

---
 esl/simulation/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index f4d9724..785bd3c 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -94,6 +94,7 @@ namespace esl::simulation {
         }
 
         auto timer_start_ = high_resolution_clock::now();
+        time = step.lower;
         environment_.before_step();
 
         //std::cout << "wake_up_times " << wake_up_times << std::endl;
@@ -250,6 +251,7 @@ namespace esl::simulation {
         environment_.after_step(*this);
         auto total_ = high_resolution_clock::now() - timer_start_;
         //LOG(notice) << "step " << step << " took " << (double(total_.count()) / 1e+9) <<  " seconds" << std::endl;
+        time = first_event_;
         return first_event_;
     }
 
-- 
2.43.0


From b680e93baebef70ea45ed4b4d82976fbea96f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 26/99] fix: wake-up times of removed agents were kept, and the
 step in which they are due never ended

---
 esl/simulation/model.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 785bd3c..f80a85d 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -238,9 +238,16 @@ namespace esl::simulation {
             }
 
             auto messages_sent_ = environment_.send_messages(*this);
-            if(0 < messages_sent_){
-                first_event_   = determine_next_event();
+
+            // agents that were removed no longer wake up
+            for(auto w = wake_up_times.begin(); w != wake_up_times.end();) {
+                if(agents.local_agents_.end() == agents.local_agents_.find(w->first)) {
+                    w = wake_up_times.erase(w);
+                } else {
+                    ++w;
+                }
             }
+            first_event_   = determine_next_event();
 
             messages_sent += messages_sent_;
 
-- 
2.43.0


From c53e6a849d488acda056ea67d6ab93a48a972051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 27/99] fix: looking up an unknown agent added a null agent to
 the population

---
 esl/simulation/agent_collection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index a3b0085..12d1295 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -54,6 +54,10 @@ namespace esl::simulation {
     std::shared_ptr<agent>
         agent_collection::operator[](const identity<agent> &a)
     {
-        return local_agents_[a];
+        auto iterator_ = local_agents_.find(a);
+        if(local_agents_.end() == iterator_){
+            return nullptr;
+        }
+        return iterator_->second;
     }
 }
-- 
2.43.0


From b8b529effa53a3815ecb98c715e3ba4602ccf1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 28/99] fix: the number of threads was ignored and the
 verbosity used in its place

---
 esl/simulation/parameter/parametrization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/simulation/parameter/parametrization.hpp b/esl/simulation/parameter/parametrization.hpp
index 15658cc..c416354 100644
--- a/esl/simulation/parameter/parametrization.hpp
+++ b/esl/simulation/parameter/parametrization.hpp
@@ -61,7 +61,7 @@ namespace esl::simulation::parameter {
             values["start"]     = std::make_shared<constant<time_point>>(start);
             values["end"]       = std::make_shared<constant<time_point>>(end);
             values["verbosity"] = std::make_shared<constant<std::uint64_t>>(verbosity);
-            values["threads"]   = std::make_shared<constant<std::uint64_t>>(verbosity);
+            values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);
         }
 
         ///
-- 
2.43.0


From 743b7387e81559ef9e3be4936518680880a58b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 29/99] fix: an error raised by an agent ended the process when
 using several threads

---
 esl/simulation/model.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index f80a85d..7c1a900 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -25,6 +25,7 @@
 #include <esl/simulation/model.hpp>
 
 #include <chrono>
+#include <exception>
 using std::chrono::high_resolution_clock;
 #include <numeric>
 
@@ -216,6 +217,8 @@ namespace esl::simulation {
                 }
             }else{
                 std::vector<std::thread> threads_;
+                // errors raised in each thread
+                std::vector<std::exception_ptr> errors_(threads);
                 auto iterator_ = acting_agents_.begin();
                 for(const auto& tasks_: quantity(acting_agents_.size()) / threads){
                     std::vector<std::shared_ptr<agent>> task_split_;
@@ -224,17 +227,27 @@ namespace esl::simulation {
                         std::advance(iterator_, 1);
                     }
 
-                    threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts)
+                    threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts, std::exception_ptr &error)
                         {
-                            for(const auto& a: ts){
-                                job_(a);
+                            try {
+                                for(const auto& a: ts){
+                                    job_(a);
+                                }
+                            } catch(...) {
+                                error = std::current_exception();
                             }
-                        }, task_split_);
+                        }, task_split_, std::ref(errors_[threads_.size()]));
                 }
 
                 for(auto &t: threads_){
                     t.join();
                 }
+
+                for(const auto &e: errors_){
+                    if(e){
+                        std::rethrow_exception(e);
+                    }
+                }
             }
 
             auto messages_sent_ = environment_.send_messages(*this);
-- 
2.43.0


From 1897e23c3bbfbc1a5aff219b2400624f6218f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 30/99] fix: messages due later were forgotten when their
 recipient acted in the meantime

---
 esl/simulation/model.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 7c1a900..2ff41f9 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -144,6 +144,11 @@ namespace esl::simulation {
                     // it is important we don't touch the wake_up_times either without locking
                     std::unique_lock lock_(mutex_first_event_);
                     auto wake_up_ = std::min(message_time_, act_time_);
+                    // messages that were received before and are due later
+                    auto pending_ = a->inbox.upper_bound(step.lower);
+                    if(a->inbox.end() != pending_){
+                        wake_up_ = std::min(wake_up_, pending_->first);
+                    }
                     if(wake_up_ < step.lower){
                         std::stringstream stream_;
                         stream_ << "Can't set next event to time_point (" << wake_up_ << ") before current time(" << step.lower << ")";
-- 
2.43.0


From 23fa05bcdbf85e13c26fe5e07036489072e03e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 31/99] fix: distinct agents, times and samples were given the
 same random stream

---
 esl/simulation/model.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 2ff41f9..01305aa 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -121,11 +121,21 @@ namespace esl::simulation {
                 // timings_act_.emplace(i, 0.);
                 // auto agent_start_ = high_resolution_clock::now();
                 // auto agent_act_ = high_resolution_clock::now();
-                // The seed is deterministic in the following variables:
-                std::seed_seq seed_ {
-                    std::uint64_t(std::hash<identity<agent>>()(a->identifier)),
-                    std::uint64_t(step.lower), std::uint64_t(round_),
-                    sample};
+                // The seed is deterministic in the identity of the agent, the
+                // time, the round and the sample. Elements of a seed sequence
+                // keep 32 bits.
+                std::vector<std::uint32_t> words_;
+                auto add_ = [&](std::uint64_t value) {
+                    words_.push_back(static_cast<std::uint32_t>(value));
+                    words_.push_back(static_cast<std::uint32_t>(value >> 32));
+                };
+                for(auto d: a->identifier.digits) {
+                    add_(d);
+                }
+                add_(step.lower);
+                add_(round_);
+                add_(sample);
+                std::seed_seq seed_(words_.begin(), words_.end());
 
                 // try {
 
-- 
2.43.0


From 07d8d6ee6bde6043e4321352856570b2ee75f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 32/99] fix: removing nothing of a property that is not in the
 inventory dereferenced the end iterator

---
 esl/economics/accounting/inventory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index c14331e..46332a6 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -205,7 +205,10 @@ namespace esl::economics::accounting {
         {
             auto iterator_ = items.find(item);
 
-            if(items.end() == iterator_ && q.amount > 0) {
+            if(items.end() == iterator_) {
+                if(0 == q.amount) {
+                    return;
+                }
                 throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
             }
 
-- 
2.43.0


From 85c4581e78afbf7f6f4fed515e605de17885b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 33/99] fix: a refused change of several properties was carried
 out in part

---
 esl/economics/accounting/inventory.hpp | 29 ++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index 46332a6..f24396a 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -221,6 +221,15 @@ namespace esl::economics::accounting {
 
         void erase(const inventory_by_fungibility<property_t_, true> &removed)
         {
+            // when something is missing, nothing is removed
+            for(const auto &[k, v]: removed.items) {
+                auto i = items.find(k);
+                auto held_ = items.end() == i ? quantity(0) : i->second;
+                if(held_ < v) {
+                    throw insufficent_inventory(held_, v, k->identifier, boost::core::demangle(typeid(property_t_).name()));
+                }
+            }
+
             for(const auto &[k, v]: removed.items) {
                 erase(k, v);
             }
@@ -242,6 +251,7 @@ namespace esl::economics::accounting {
 
         void erase_from(law::property_map<quantity> &m) const
         {
+            // when something is missing, nothing is removed
             for(auto [k, v] : items) {
                 if(v == 0){
                     continue;
@@ -253,7 +263,15 @@ namespace esl::economics::accounting {
                 } else if(i->second < v) {
                     //LOG(errorlog) << "when looking for property " << boost::core::demangle(typeid(property_t_).name()) << " id: "<< k->identifier << " there were insufficient ("<<i->second<<") items to withdraw " << v << std::endl;
                     throw insufficent_inventory(i->second, v, k->identifier, k->name());
-                } else if(i->second == v) {
+                }
+            }
+
+            for(auto [k, v] : items) {
+                if(v == 0){
+                    continue;
+                }
+                auto i = m.find(k);
+                if(i->second == v) {
                     m.erase(k);
                 } else {
                     i->second -= v;
@@ -322,14 +340,17 @@ namespace esl::economics::accounting {
 
         void insert_into(law::property_map<quantity> &m) const
         {
+            // when something is already present, nothing is inserted
             for(auto k : items) {
                 auto i = m.find(k);
-                if(m.end() == i) {
-                    m.insert({k, quantity(1)});
-                } else {
+                if(m.end() != i) {
                     throw duplicate_infungible(i->second + 1);
                 }
             }
+
+            for(auto k : items) {
+                m.insert({k, quantity(1)});
+            }
         }
 
         /*
-- 
2.43.0


From d6606fee257b4acdf205f9649cc79e7d24fae606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 34/99] fix: the value of an inventory did not compile

---
 esl/economics/accounting/inventory.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index f24396a..227c93d 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -175,11 +175,7 @@ namespace esl::economics::accounting {
         {
             auto result_ = economics::cash(a.reporting_currency).price(0);
             for(auto [k, v]: items) {
-                auto unit_     = k->value(a);
-                auto multiple_ = static_cast<int64_t>((unit_.value * v.amount) / v.basis);
-                // auto q  = quantity(multiple_, unit_.valuation.denominator);
-                auto p = price(multiple_, unit_.valuation);
-                result_ += p;
+                result_ += a.value(*k, v);
             }
             return result_;
         }
-- 
2.43.0


From 89b1f7b43e23963ea7c78990c08f0233ec0f31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 35/99] fix: a transfer to oneself removed the property from
 the holdings of its type

---
 esl/economics/owner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 1307ace..93de4a9 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -195,6 +195,10 @@ namespace esl::law {
                                             simulation::time_interval ti,
                                             std::seed_seq &seed) {
                 (void)seed;
+                if(msg->transferor == msg->transferee){
+                    return ti.upper;
+                }
+
                 if((*this).identifier == msg->transferor) {
                     // this process is duplicated several times for every
                     // inherited owner<p>, as we are reliant on dynamic type
-- 
2.43.0


From ef02f9f056be1a6f3c319a18e17d7d2e16a41cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 36/99] fix: taking more of a property that is already owned
 did not add to the inventory

---
 esl/economics/owner.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 93de4a9..555d8f5 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -256,8 +256,12 @@ namespace esl::law {
         void take(std::shared_ptr<property_t_> property, quantity amount)
         {
             this->properties.insert(property, amount);
-            esl::law::owner<esl::law::property>::inventory.insert(
-                std::make_pair(property, amount));
+            auto [iterator_, inserted_] =
+                esl::law::owner<esl::law::property>::inventory.insert(
+                    std::make_pair(property, amount));
+            if(!inserted_) {
+                iterator_->second += amount;
+            }
         }
 
 
-- 
2.43.0


From 484f3d3c6d6b7779b67124efdf6abcfe6d190fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 37/99] fix: holdings with a negative market price were valued
 with unsigned division

---
 esl/economics/accounting/standard.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 1acc00c..dd37d02 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -99,8 +99,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
 
-            int64_t value_ = (std::get<price>(i->second.type).value * q.amount)
-                / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(q.amount))
+                / int64_t(i->second.lot);
 
             return price(value_, std::get<price>(i->second.type).valuation);
         }
@@ -120,8 +120,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
             // TODO: use foreign_currencies if valuation is in different currency
-            int64_t value_ = (std::get<price>(i->second.type).value * c.size.amount * q.amount)
-                             / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(c.size.amount) * int64_t(q.amount))
+                             / int64_t(i->second.lot);
             result_.value -= value_;
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
             return result_;
-- 
2.43.0


From fe0a52f95ea47e067747980650a2e9308a63ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 38/99] fix: dividends per share were multiplied by the number
 of shares

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 6206c0f..90e0b73 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -72,7 +72,7 @@ namespace esl::economics {
         for(const auto &[s, q]: shares_outstanding) {
             if(s.dividend) {
                 result_.insert(make_pair(
-                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_ * q))));
+                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_))));
             }
         }
 
-- 
2.43.0


From 8ab5efbead749a91a6e15a40a3aacd78e39638e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 39/99] fix: a company waiting to pay dividends asked to act at
 the announcement date, which had passed

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 90e0b73..a255833 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -177,7 +177,7 @@ namespace esl::economics {
             }
         } else {
             next_event_ = std::min<simulation::time_point>(
-                policy_.announcement_date, next_event_);
+                policy_.payable_date, next_event_);
         }
         return next_event_;
     }
-- 
2.43.0


From c58aac97d82627651bcb03480f19669deac8933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 40/99] fix: share classes of equal rank and different rights
 were not told apart

---
 esl/economics/finance/share_class.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/finance/share_class.hpp b/esl/economics/finance/share_class.hpp
index 797e904..2abb501 100644
--- a/esl/economics/finance/share_class.hpp
+++ b/esl/economics/finance/share_class.hpp
@@ -24,6 +24,7 @@
 #define ESL_SHARE_HPP
 
 #include <cstdint>
+#include <tuple>
 
 #include <boost/functional/hash.hpp>
 
@@ -109,7 +110,8 @@ namespace esl::economics::finance {
 
         constexpr bool operator < (const share_class &s) const
         {
-            return rank < s.rank;
+            return std::tie(rank, votes, preference, dividend, cumulative, redeemable)
+                 < std::tie(s.rank, s.votes, s.preference, s.dividend, s.cumulative, s.redeemable);
         }
 
         template<class archive_t>
-- 
2.43.0


From d24600714a460a663138ca171a8cc9bbf52c9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 41/99] fix: a price received in another currency was recorded
 in the currency of the previous price

---
 esl/economics/finance/shareholder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 89168ad..9934225 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -73,7 +73,7 @@ namespace esl::economics::finance {
                     if(prices.end() == i){
                         prices.emplace(k, std::get<price>(v.type));
                     }else{
-                        i->second.value = std::get<price>(v.type).value;
+                        i->second = std::get<price>(v.type);
                     }
                 }
                 return step.upper;
-- 
2.43.0


From 11315813c7ec619c7e3711a6037892273b63551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 42/99] fix: bondholders kept the first price they received of
 each bond

---
 esl/economics/finance/bondholder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esl/economics/finance/bondholder.cpp b/esl/economics/finance/bondholder.cpp
index c33f311..ec1d2bf 100644
--- a/esl/economics/finance/bondholder.cpp
+++ b/esl/economics/finance/bondholder.cpp
@@ -45,8 +45,11 @@ namespace esl::economics::finance {
                 (void) seed;
                 for(auto &[k, v] : m->proposed){
                     assert(std::holds_alternative<price>(v.type));
-                    auto p = std::make_pair(k, std::get<price>(v.type));
-                    this->bond_prices.insert(std::move(p));
+                    auto p = std::get<price>(v.type);
+                    auto [iterator_, inserted_] = this->bond_prices.insert(std::make_pair(k, p));
+                    if(!inserted_){
+                        iterator_->second = p;
+                    }
                 }
                 return step.upper;
             };
-- 
2.43.0


From cc1d7551d54afb2194060fd7a790b8918d22301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 43/99] fix: dividing a profit over share classes without any
 shares converted infinity to an integer

---
 esl/economics/company.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index a255833..0981016 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -65,6 +65,11 @@ namespace esl::economics {
             return {};
         }
 
+        // without shareholders the profit is not paid out
+        if(0 == total_shares()) {
+            return {};
+        }
+
         std::map<finance::share_class, std::tuple<std::uint64_t, price>> result_;
 
         double fraction_ = double(unappropriated_profit) / total_shares();
-- 
2.43.0


From 2a0b655f91bef98ac15bbf6285f313094287d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 44/99] fix: the holdings of shares without a known stock
 dereferenced the end iterator

---
 esl/economics/finance/shareholder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 9934225..46ddc9c 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -107,7 +107,7 @@ namespace esl::economics::finance {
         for(const auto &[k, v] : shares) {
             for(const auto &[share_, amount_] : v) {
                 auto key_         = std::make_tuple(k, share_);
-                auto property_id_ = stocks.find(key_)->second;
+                auto property_id_ = stocks.at(key_);
 
                 auto iterator_ = result_.find(property_id_);
 
-- 
2.43.0


From 5be53aeee5b65d2435da3f4b5e2cb4bb6deef546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 45/99] fix: the length of the national part of an ISIN was not
 checked

---
 esl/economics/finance/isin.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 003f584..c68ebdd 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -85,7 +85,7 @@ namespace esl::economics::finance {
         isin(geography::iso_3166_1_alpha_2 issuer, const std::string &nsin_code)
         : isin(issuer, esl::to_array<0, 9, char>(nsin_code))
         {
-            if((9 > code.size()) || (10 < code.size())){
+            if((9 > nsin_code.size()) || (10 < nsin_code.size())){
                 throw esl::exception("A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum.");
             }
         }
@@ -102,6 +102,9 @@ namespace esl::economics::finance {
             if(2 != issuer.size()){
                 throw esl::exception("The issuer part of the ISIN must be 2 letters (ISO 3166)");
             }
+            if((9 > nsin_code.size()) || (10 < nsin_code.size())){
+                throw esl::exception("A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum.");
+            }
         }
 
         ///
-- 
2.43.0


From 82a6428181538b340e6880c3d5f852c2f098a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 46/99] fix: an ISIN built from its text took the country as
 part of the national code

---
 esl/economics/finance/isin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index c68ebdd..cbc790c 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -71,7 +71,7 @@ namespace esl::economics::finance {
                   //: throw esl::exception("ISO 3166-1 alpha-2 country code needs to be two characters")
 
                 )
-        , code(esl::array_slice<0, 9>(code))
+        , code(esl::array_slice<2, 11>(code))
         {
 
         }
-- 
2.43.0


From 0fdc6c0e3a772b05f6665cf5ad602aff16f922b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 47/99] fix: uniform sampling of parameters did not compile

---
 esl/simulation/parameter/sampler.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 45d2682..9147eed 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -62,7 +62,7 @@ namespace esl::simulation::parameter {
             for(const auto &p: parameters){
                 // the upper bound is exclusive in the distribution, so we move
                 // the bound up
-                distributions_.template emplace(p, std::uniform_real_distribution<number_t_>
+                distributions_.emplace(p, std::uniform_real_distribution<number_t_>
                     ( p->lower
                     , std::nextafter(p->upper, std::numeric_limits<number_t_>::infinity())));
             }
@@ -73,9 +73,10 @@ namespace esl::simulation::parameter {
                 std::map<std::shared_ptr<parameter::interval<number_t_>>,
                          number_t_> sample_;
                 for(const auto &p: parameters) {
-                    sample_[p] = distributions_[p].get()(generator_);
+                    // the moved bound itself may be drawn due to rounding
+                    sample_[p] = std::min(p->upper, distributions_.find(p)->second(generator_));
                 }
-                result_.template emplace(sample_);
+                result_.emplace_back(sample_);
             }
 
             return result_;
-- 
2.43.0


From 7a7088f264529eb6e939dcabb2832ebfd0327a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 48/99] fix: sampling a parameter at a single level gave nan

---
 esl/simulation/parameter/sampler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 9147eed..76adcd7 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -102,7 +102,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(d);
                 indices_.emplace(p, 0);
                 for(unsigned int s = 0; s < d; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (d - 1) * s;
+                    auto v = 1 == d ? p->lower : p->lower + (p->upper - p->lower) / (d - 1) * s;
                     values_[p].emplace_back(v);
                 }
             }
@@ -147,7 +147,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(density);
                 indices_[p].reserve(density);
                 for(unsigned int s = 0; s < density; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (density - 1) * s;
+                    auto v = 1 == density ? p->lower : p->lower + (p->upper - p->lower) / (density - 1) * s;
                     auto i = values_[p]. emplace_back(v);
                     indices_[p]. emplace_back(s);
                 }
-- 
2.43.0


From 3c379abc1df511cadfdcb817ee70b5ba69a04f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 49/99] fix: rendering sets and lists did not compile

---
 esl/data/representation.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index d6b0173..c4b2fb4 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -108,7 +108,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.end(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -163,7 +163,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.end(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -260,7 +260,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.end(); ++i) {
                 stream << " -> " << *i;
             }
         }
@@ -282,7 +282,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.end(); ++i) {
                 stream << " <-> " << *i;
             }
         }
-- 
2.43.0


From 47f19a213337a8d7877a80fc6523f9e537096d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 50/99] fix: only half of the elements of a queue were rendered

---
 esl/data/representation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index c4b2fb4..da06ec4 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -237,7 +237,7 @@ namespace std {
         if(!queue.empty()){
             stream << queue.front();
             queue.pop();
-            for(size_t c = 0; c < queue.size(); ++c){
+            while(!queue.empty()){
                 stream << ", " << queue.front();
                 queue.pop();
             }
-- 
2.43.0


From 34114bdbf234a95c841d0bcce90e1fe53aa6d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 51/99] fix: collections of property were rendered empty if
 money came first

---
 esl/law/property_collection.hpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/esl/law/property_collection.hpp b/esl/law/property_collection.hpp
index e666cc4..c4879f1 100644
--- a/esl/law/property_collection.hpp
+++ b/esl/law/property_collection.hpp
@@ -100,21 +100,10 @@ namespace esl::law {
         stream << '{';
         if(!associative.empty()) {
             auto b = associative.begin();
-
-            std::shared_ptr<economics::money> m_ = std::dynamic_pointer_cast<economics::money>(b->first);
-            if(!m_){
-                stream << b->first->name()   << ": " << (b->second);
-            }else{
-                //stream << m_->price(b->second );
-            }
+            stream << b->first->name()   << ": " << (b->second);
             std::advance(b, 1);
             for(auto i =  b; i != associative.end(); ++i) {
-                std::shared_ptr<economics::money> m = std::dynamic_pointer_cast<economics::money>(i->first);
-                if(!m_){
-                    stream << ", " << i->first->name()   << ": " << (i->second);
-                }else{
-                  //  stream << ", " << m_->price(b->second );
-                }
+                stream << ", " << i->first->name()   << ": " << (i->second);
             }
         }
         stream << '}';
-- 
2.43.0


From 632d98fe4e63955a4d68e9bec87b9e8219ca4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 52/99] fix: text in rows of delimiter separated values was not
 escaped

---
 .../format/delimiter_separated_values.hpp     | 46 +++++++------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index fce8edd..c118f33 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -27,7 +27,9 @@
 
 #include <ostream>
 #include <sstream>
+#include <string>
 #include <tuple>
+#include <type_traits>
 #include <vector>
 
 
@@ -74,41 +76,25 @@ namespace esl::data::format::delimiter_separated_values {
 
 
     template<typename element_t_>
-    void extract_element(std::ostream &s, element_t_ v)
+    void extract_element(std::ostream &s, const element_t_ &v)
     {
-        s << v;
-    }
-
-    ///
-    /// \brief  Specialization for strings, which must be escaped.
-    ///
-    /// \param s
-    /// \param v
-    template<>
-    void extract_element(std::ostream &s, const std::string &v)
-    {
-        s << render(v);
+        if constexpr(std::is_same<element_t_, std::string>::value) {
+            s << render(v); // strings must be escaped
+        } else {
+            s << v;
+        }
     }
 
-
-    template<typename... elements_t_>
+    template<typename element_t_, typename next_t_, typename... elements_t_>
     static void extract_element( std::ostream &s
-                               , std::string &&first
-                               , elements_t_ &&... rest)
-    {
-        char delimiter_ = ',';
-        s << render(first) << delimiter_;
-        extract_element(s, std::forward<elements_t_>(rest)...);
-    }
-
-    template<typename element_t_, typename... elements_t_>
-    static void extract_element(std::ostream &s
-                               , element_t_ &&first
-                               , elements_t_ &&... rest)
+                               , const element_t_ &first
+                               , const next_t_ &next
+                               , const elements_t_ &... rest)
     {
         char delimiter_ = ',';
-        s << first << delimiter_;
-        extract_element(s, std::forward<elements_t_>(rest)...);
+        delimiter_separated_values::extract_element(s, first);
+        s << delimiter_;
+        delimiter_separated_values::extract_element(s, next, rest...);
     }
 
     ///
@@ -121,7 +107,7 @@ namespace esl::data::format::delimiter_separated_values {
                     const std::tuple<element_t_...> &tuple)
     {
         auto print_ = [&](auto... elements_) {
-            return extract_element(stream, elements_...);
+            return delimiter_separated_values::extract_element(stream, elements_...);
         };
         std::apply(print_, tuple);
         stream << std::endl;
-- 
2.43.0


From f7df347300d8ecc6a1cf3920dcbcb9400d451867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 53/99] fix: line breaks in delimiter separated values were not
 quoted

---
 esl/data/format/delimiter_separated_values.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index c118f33..11eeb18 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -54,6 +54,8 @@ namespace esl::data::format::delimiter_separated_values {
             quote_ = true;
         } else if(text.find(escape) != std::string::npos) {
             quote_ = true;
+        } else if(text.find_first_of("\r\n") != std::string::npos) {
+            quote_ = true;
         }
 
         std::stringstream stream_;
-- 
2.43.0


From 8f8ba3c60ebca42e72cd6e358becbdacb1365768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 54/99] fix: writing to a file without giving a directory was
 refused

---
 esl/data/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/file.cpp b/esl/data/file.cpp
index 061d5f7..0db2617 100644
--- a/esl/data/file.cpp
+++ b/esl/data/file.cpp
@@ -9,7 +9,7 @@ namespace esl::data {
 
     file::file(const std::filesystem::path &name, const std::filesystem::path &prefix)
     : stream(file_)
-    , file_((std::filesystem::create_directories(prefix), prefix / name ))
+    , file_((prefix.empty() || std::filesystem::create_directories(prefix), prefix / name ))
     {
         if(!file_.good()){
             std::stringstream message_;
-- 
2.43.0


From 63ccd37a71aa387a4e6c7a25951a68e707fe8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 55/99] fix: whether an output with several streams is buffered
 was not initialised

---
 esl/data/output_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esl/data/output_base.cpp b/esl/data/output_base.cpp
index 33c4a93..5b6453a 100644
--- a/esl/data/output_base.cpp
+++ b/esl/data/output_base.cpp
@@ -47,6 +47,7 @@ namespace esl::data {
         , std::vector<std::shared_ptr<stream>, boost::pool_allocator<std::shared_ptr<stream> >> streams)
     : name(name)
     , streams(streams)
+    , buffered(true)
     {
         
     }
-- 
2.43.0


From 563e72cfd8720e77c987b7b5ff9ecea7914987d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 56/99] fix: ending a line of the log through its manipulator
 locked the log twice and never returned

---
 esl/data/channel.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/esl/data/channel.hpp b/esl/data/channel.hpp
index da4da6d..ef4eac1 100644
--- a/esl/data/channel.hpp
+++ b/esl/data/channel.hpp
@@ -121,7 +121,6 @@ namespace esl::data {
         /// \return
         channel &operator<<(manipulator function)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
             return function(*this);
         }
 
@@ -131,11 +130,7 @@ namespace esl::data {
         /// \return
         static channel &endl(channel &stream)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
             stream << std::endl;
-#if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
-            std::cout << std::endl;
-#endif
             return stream;
         }
 
-- 
2.43.0


From 316ebd03ac88c694287bea1af37bf557bdda4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 57/99] fix: a thread pool with the default number of threads
 divided by zero

---
 esl/computation/thread_pool.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index c0a4540..e51c868 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -55,17 +55,10 @@ namespace esl::computation {
         ///
         std::atomic<unsigned int> index_ = 0;
 
-    public:
         ///
-        /// \brief  The workload per thread
+        /// \brief  The number of threads to use when `threads` are requested
         ///
-        constexpr static double load_factor = 2.;
-
-        const unsigned int threads;
-
-        explicit thread_pool(unsigned int threads = std::thread::hardware_concurrency())
-        : queues_(threads)
-        , threads(threads)
+        static unsigned int available(unsigned int threads)
         {
             if (0 >= threads) {
                 threads = std::thread::hardware_concurrency();
@@ -74,6 +67,22 @@ namespace esl::computation {
                     threads = 1;
                 }
             }
+            return threads;
+        }
+
+    public:
+        ///
+        /// \brief  The workload per thread
+        ///
+        constexpr static double load_factor = 2.;
+
+        const unsigned int threads;
+
+        explicit thread_pool(unsigned int threads = std::thread::hardware_concurrency())
+        : queues_(available(threads))
+        , threads((unsigned int)queues_.size())
+        {
+            threads = this->threads;
 
             auto worker_ = [this](auto i) {
                 while (true) {
-- 
2.43.0


From 0a285effcafe27e09300fc5946abeefb9ec0a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 58/99] fix: rounding away from zero did not compile and would
 have moved integers

---
 esl/algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index f031d91..a73707c 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -155,7 +155,7 @@ namespace esl {
         template<typename floating_t_, typename integer_t_ = int64_t>
         integer_t_ integer_away_from_zero(floating_t_ value)
         {
-            return integer_t_(std::trunc(value) + sign(value));
+            return integer_t_(value < 0 ? std::floor(value) : std::ceil(value));
         }
     }  // namespace rounding
 
-- 
2.43.0


From a68ccbcfad4e76a89e4d36331c599f6959a80895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 59/99] fix: growth rate divided by the number of values rather
 than the number of periods

---
 esl/algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index a73707c..e71c326 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -181,14 +181,14 @@ namespace esl {
     {
         auto result_log_ =
             typename std::iterator_traits<iterator_t_>::value_type(0);
-        size_t elements_ = 1;
+        size_t elements_ = 0;
         auto next_ = std::next(begin);
 
         for(begin; next_ != end; ++begin, ++next_, ++elements_) {
             result_log_ += std::log(*next_) - std::log(*begin);
         }
 
-        return std::exp(result_log_ / elements_) - 1;
+        return std::exp(result_log_ / std::max<size_t>(1, elements_)) - 1;
     }
 
     template<typename container_t_>
-- 
2.43.0


From 7b1dba228aa7fb32e98db5b80e5dd70cf3d6ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 60/99] fix: allocating fractions truncated shares and ran out
 of range when too many were allocated

---
 esl/algorithms.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index e71c326..22fee48 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -206,11 +206,11 @@ namespace esl {
         std::vector<int> result_;
         for(const auto &f : fractions) {
             sum_ += f;
-            near_ += round(f);
-            result_.push_back(round(abs(f)));
+            near_ += int(std::round(f));
+            result_.push_back(int(std::round(std::abs(f))));
         }
 
-        int target_ = round(sum_);
+        int target_ = int(std::round(sum_));
         if(near_ == target_) {
             return result_;
         }
@@ -220,13 +220,17 @@ namespace esl {
         sort(indices_.begin(),
              indices_.end(),
              [&fractions](size_t i1, size_t i2) {
-                 return (fractions[i1] - std::nearbyint(fractions[i1]))
-                        > (fractions[i2] - std::nearbyint(fractions[i2]));
+                 return (fractions[i1] - std::round(fractions[i1]))
+                        > (fractions[i2] - std::round(fractions[i2]));
              });
 
-        for(size_t i = 0; i < (target_ - near_); ++i) {
+        for(int i = 0; i < target_ - near_; ++i) {
             ++result_[indices_[i]];
         }
+        // too many were allocated, take back where rounding up added most
+        for(int i = 0; i < near_ - target_; ++i) {
+            --result_[indices_[indices_.size() - 1 - i]];
+        }
 
         return result_;
     }
-- 
2.43.0


From 7fafa5e08827d7e869854603027425ce45dfc309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 61/99] fix: the zero-truncated Poisson distribution was not
 accessible and skewed its probabilities

---
 esl/mathematics/zero_truncated_poisson_distribution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/mathematics/zero_truncated_poisson_distribution.hpp b/esl/mathematics/zero_truncated_poisson_distribution.hpp
index d3a67e3..e63a037 100644
--- a/esl/mathematics/zero_truncated_poisson_distribution.hpp
+++ b/esl/mathematics/zero_truncated_poisson_distribution.hpp
@@ -25,6 +25,8 @@
 #ifndef MARKET_ECOLOGY_ZERO_TRUNCATED_POISSON_DISTRIBUTION_HPP
 #define MARKET_ECOLOGY_ZERO_TRUNCATED_POISSON_DISTRIBUTION_HPP
 
+#include <cmath>
+#include <limits>
 #include <numeric>
 #include <random>
 
@@ -32,6 +34,7 @@
 template<typename integer_t_ = int>
 class zero_truncated_poisson_distribution
 {
+public:
     typedef integer_t_ result_type;
 
     ///
@@ -58,7 +61,8 @@ class zero_truncated_poisson_distribution
 
         result_type k = 1;
 
-        for(; s < u && k < std::numeric_limits<result_type>::max(); ++k){
+        while(s < u && k < std::numeric_limits<result_type>::max()){
+            ++k;
             t *= (lambda / k);
             s += t;
         }
-- 
2.43.0


From 73e6c365ad097b9a9cf89e7a04adc277c7cafae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 62/99] fix: an order for a property that is not traded added
 the property to the impact market

---
 esl/economics/markets/impact_function/market.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index b5e9559..d52e5c3 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -173,7 +173,11 @@ namespace esl::economics::markets::impact_function {
 
         std::map<identity<law::property>, double> impacts_;
         for(const auto &[p, v]: volumes_){
-            auto old_ = double(traded_properties[p]);
+            auto i = traded_properties.find(p);
+            if(traded_properties.end() == i){
+                continue;   // this market does not trade the property
+            }
+            auto old_ = double(i->second);
             impacts_.emplace(p->identifier, (old_ + impact_function(v)) / old_  );
         }
 
-- 
2.43.0


From f79f97acf0558d5e6e818821bba4a9f4a5a265d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 63/99] fix: the price impact of orders was computed but not
 applied to the quotes

---
 esl/economics/markets/impact_function/market.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index d52e5c3..794ee4b 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -24,6 +24,9 @@
 ///
 #include <esl/economics/markets/impact_function/market.hpp>
 
+#include <algorithm>
+#include <cmath>
+
 #include <esl/economics/markets/impact_function/order.hpp>
 #include <esl/economics/markets/impact_function/quote.hpp>
 
@@ -110,9 +113,13 @@ namespace esl::economics::markets::impact_function {
 
                 std::vector<price> prices_;
                 for(auto &[k, v]: traded_properties){
-                    (void)v;
                     // TODO: generalise to all types of quotes
-                    prices_.emplace_back(std::get<price>(v.type));
+                    auto &price_ = std::get<price>(v.type);
+                    auto scalar_ = scalars_.find(k->identifier);
+                    if(scalars_.end() != scalar_){
+                        price_.value = std::max<int64_t>(1, std::llround(price_.value * scalar_->second));
+                    }
+                    prices_.emplace_back(price_);
                     quotes_.emplace_back(quote(v));
                 }
 
-- 
2.43.0


From 1b72b8b78b8590f92e675e3a136b6f9594b7b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 64/99] fix: the rate of the shifted gamma latency was used as
 a scale

---
 esl/interaction/communication.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/interaction/communication.hpp b/esl/interaction/communication.hpp
index 65a17e8..472a5ed 100644
--- a/esl/interaction/communication.hpp
+++ b/esl/interaction/communication.hpp
@@ -99,7 +99,7 @@ namespace esl::interaction::communication {
         {
             (void)sender;
             (void)recipient;
-            auto gamma_ = std::gamma_distribution<double>(shape, rate);
+            auto gamma_ = std::gamma_distribution<double>(shape, 1. / rate);
             std::mt19937 gen(seed);
             auto real_ = gamma_(gen);
             return simulation::time_duration( shift + real_);
-- 
2.43.0


From 18500ea4e23e92c57078b688ca35b35880920ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 65/99] fix: the impact market took the volume of an order for
 its side

---
 esl/economics/markets/impact_function/market.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index 794ee4b..cb73c3f 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -170,10 +170,10 @@ namespace esl::economics::markets::impact_function {
                 volumes_.emplace(p, 0.);
 
 
-                if(order_message::buy == i.first ){
-                    volumes_[p] += double(i.second);
-                }else if(order_message::sell == i.first ){
-                    volumes_[p] -= double(i.second);
+                if(order_message::buy == i.second ){
+                    volumes_[p] += double(i.first);
+                }else if(order_message::sell == i.second ){
+                    volumes_[p] -= double(i.first);
                 }
             }
         }
-- 
2.43.0


From 578c69c7ce27cf0e99fe55fb3e30c7e144bad91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 66/99] fix: a price was saved as text and never loaded back

---
 esl/economics/price.hpp | 44 +++--------------------------------------
 1 file changed, 3 insertions(+), 41 deletions(-)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index f254242..3884b7f 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -330,52 +330,14 @@ namespace esl::economics {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            //archive &BOOST_SERIALIZATION_NVP(value);
-            //archive &boost::serialization::make_nvp(
-            //    "valuation", const_cast<iso_4217 &>(valuation));
-
-            std::stringstream stream_;
-            stream_ << valuation.code[0];
-            stream_ << valuation.code[1];
-            stream_ << valuation.code[2];
-            stream_ << ' ' << value << '/' << valuation.denominator;
-
-            std::string res_ = stream_.str();
-
-            archive & boost::serialization::make_nvp("price", res_);
+            archive &BOOST_SERIALIZATION_NVP(value);
+            archive &boost::serialization::make_nvp(
+                "valuation", const_cast<iso_4217 &>(valuation));
         }
     };
 }
 
 
-namespace boost::serialization {
-        /*template<typename archive_t>
-        inline void save_construct_data( archive_t &archive, const esl::economics::price * t
-                                       , const unsigned int file_version)
-       {
-            (void) file_version;
-           (void) archive;
-            //archive << boost::serialization::make_nvp("value", t->value);
-            //archive << boost::serialization::make_nvp("valuation", t->valuation);
-
-        }*/
-
-        template<typename archive_t>
-        inline void load_construct_data( archive_t &archive
-                                       , esl::economics::price * t
-                                       , const unsigned int file_version
-                                       )
-        {
-            (void) file_version;
-            std::int64_t value_ = 0;
-            archive >> value_;
-            esl::economics::iso_4217 code_;
-            archive >> code_;
-            ::new(t)esl::economics::price(value_, code_);
-        }
-} // namespace boost::serialization
-
-
 #ifdef WITH_MPI
 namespace boost::mpi {
     template<>
-- 
2.43.0


From 6fc508406b4959c749039ab7fd5bd817cb486b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 67/99] fix: fractions were saved and loaded with their numbers
 cut off to int

---
 esl/mathematics/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/mathematics/rational.hpp b/esl/mathematics/rational.hpp
index b25fa48..10358e7 100644
--- a/esl/mathematics/rational.hpp
+++ b/esl/mathematics/rational.hpp
@@ -42,7 +42,7 @@ namespace boost::serialization {
               unsigned version)
     {
         (void)version;
-        int n = r.numerator(), d = r.denominator();
+        T n = r.numerator(), d = r.denominator();
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
     }
@@ -51,7 +51,7 @@ namespace boost::serialization {
     void load(archive_t &archive, boost::rational<T> &r, unsigned version)
     {
         (void)version;
-        int n, d;
+        T n, d;
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
         r = boost::rational<T>(n, d);
-- 
2.43.0


From d12d015914cf2fffcb3e919127209c3eeeecd6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 68/99] fix: saving and loading an exchange rate did not
 compile

---
 esl/economics/exchange_rate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index dc04b99..f3f5fb6 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -158,7 +158,7 @@ namespace esl::economics {
             (void)version;
             archive &boost::serialization::make_nvp(
                 "rate_std::uint64_t_",
-                boost::serialization::base_object<rate<>>(*this));
+                boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
 }
-- 
2.43.0


From 8b8825a160ef3c9ce733adbb76fe0cb7ad4ebdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 69/99] fix: dividend messages were saved without their sender,
 recipient and times

---
 esl/economics/finance/dividend.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/finance/dividend.hpp b/esl/economics/finance/dividend.hpp
index e1df7e0..f6145a7 100644
--- a/esl/economics/finance/dividend.hpp
+++ b/esl/economics/finance/dividend.hpp
@@ -123,7 +123,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_announcement_message,
@@ -172,7 +172,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_record,
-- 
2.43.0


From 420e25b49e24f58000bc32742766e9bb157d3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 70/99] fix: the timing of an agent was not saved

---
 esl/computation/timing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/computation/timing.hpp b/esl/computation/timing.hpp
index 2264ac5..8e1e01a 100644
--- a/esl/computation/timing.hpp
+++ b/esl/computation/timing.hpp
@@ -56,12 +56,12 @@ namespace esl::computation {
         {
             (void)version;
 
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "messaging",
                 boost::serialization::make_binary_object(&messaging,
                                                          sizeof(messaging)));
 
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "acting",
                 boost::serialization::make_binary_object(&acting,
                                                          sizeof(acting)));
-- 
2.43.0


From 0a9680279bed21d9fb8e17fbdfae3fab8ca28ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 71/99] fix: the price of a quote was saved but not loaded back

---
 esl/economics/markets/quote.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index 408244e..a8819c2 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -380,13 +380,11 @@ namespace esl::economics::markets {
             size_t index_ = 0;
             archive >> BOOST_SERIALIZATION_NVP(index_);
             if(0 == index_) {
-                //exchange_rate re;
-                //archive >> boost::serialization::make_nvp("exchange_rate", re);
-                //type.emplace<0>(re);
-            } else if(1 == index_) {
                 price p;
                 archive >> boost::serialization::make_nvp("price", p);
                 type.emplace<price>(p);
+            } else {
+                throw esl::exception("variant quote not supported");
             }
         }
 
-- 
2.43.0


From b0c77d0eafe5ec14c0c0922b8eb27268b65178e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 72/99] fix: messages were saved without their header

---
 esl/interaction/message.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index f7580cd..a32be53 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -73,7 +73,7 @@ namespace esl::interaction {
         {
             (void)version;
 
-            BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
                 "type_code_t⟨type_code_⟩",
-- 
2.43.0


From 29a5e9b38c3f2a9bb70a0fed4fc0881d325114e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 73/99] fix: order currencies with one code and different
 denominators

---
 esl/economics/iso_4217.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/economics/iso_4217.hpp b/esl/economics/iso_4217.hpp
index 4bbfa0f..705c4ad 100644
--- a/esl/economics/iso_4217.hpp
+++ b/esl/economics/iso_4217.hpp
@@ -121,7 +121,8 @@ namespace esl::economics {
                 }
             }
 
-            return false;
+            // the denominator is part of the currency's identity
+            return denominator < operand.denominator;
         }
 
         [[nodiscard]] explicit operator std::string() const
-- 
2.43.0


From 5bc4de9a7254019cbe6f2c9716a6819a40078754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 74/99] fix: the Walrasian market's fallback solvers respect
 the circuit breaker

---
 esl/economics/markets/walras/tatonnement.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index 6a785d1..c60759d 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -617,6 +617,9 @@ namespace esl::economics::markets::tatonnement {
                     std::map<esl::identity<esl::law::property>, double> result_;
                     for(size_t i = 0; i < active_.size(); ++i) {
                         auto scalar_ = gsl_vector_get (minimizer->x, i);
+                        // apply circuit breaker
+                        scalar_ = std::min(scalar_, circuit_breaker.second);
+                        scalar_ = std::max(scalar_, circuit_breaker.first);
                         result_.insert({mapping_index_[i], scalar_});
                     }
                     gsl_multimin_fdfminimizer_free(minimizer);
@@ -690,6 +693,9 @@ namespace esl::economics::markets::tatonnement {
                     std::map<esl::identity<esl::law::property>, double> result_;
                     for(size_t i = 0; i < active_.size(); ++i) {
                         auto scalar_ = gsl_vector_get (minimizer->x, i);
+                        // apply circuit breaker
+                        scalar_ = std::min(scalar_, circuit_breaker.second);
+                        scalar_ = std::max(scalar_, circuit_breaker.first);
                         result_.insert({mapping_index_[i], scalar_});
                     }
                     gsl_multimin_fminimizer_free(minimizer);
@@ -785,7 +791,10 @@ namespace esl::economics::markets::tatonnement {
                 std::map<esl::identity<esl::law::property>, double> result_;
                 for(size_t i = 0; i < active_.size(); ++i) {
                     //LOG(trace) << "outcome: " << multipliers_[i] << std::endl;
-                    result_.emplace(mapping_index_[i], multipliers_[i]);
+                    // apply circuit breaker
+                    auto scalar_ = std::min(multipliers_[i], circuit_breaker.second);
+                    scalar_ = std::max(scalar_, circuit_breaker.first);
+                    result_.emplace(mapping_index_[i], scalar_);
                 }
 
                 gsl_multiroot_fsolver_free (solver_);
-- 
2.43.0


From dccaff5e637abd73181bdc1a9bd661b9e669184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 75/99] fix: nobody trades against their own order when a
 Walrasian market is rationed

---
 esl/economics/markets/walras/price_setter.cpp | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 2a49d43..e8b3ff3 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -235,24 +235,28 @@ namespace esl::economics::markets::walras {
                                  < std::abs(std::get<1>(b));
                       });
 
-            if(error_ < 0){  // assigned too many
-                if(allocations_.size() < uint64_t(-error_)) {
-//                    LOG(notice) << "excess demand non-zero: " << error_ << std::endl;
-
-                }
-
-                for(size_t ii = 0; ii < uint64_t(-error_); ++ii) {
-                    std::get<1>(allocations_[ii % allocations_.size()]) += 1;
-                }
-            }else{
-                if(allocations_.size() < uint64_t(error_)) {
-//                    LOG(notice) << "excess demand non-zero: " << error_ << std::endl;
-
+            // ration the side of the market that demands or supplies too much,
+            // in equal amounts, so that nobody trades against their own order
+            const bool excess_demand_ = error_ > 0;
+            auto rationed_ = std::count_if(allocations_.begin(), allocations_.end(),
+                [&](const auto &a) {
+                    return excess_demand_ ? std::get<1>(a) > 0 : std::get<1>(a) < 0;
+                });
+
+            for(auto &[p, a]: allocations_) {
+                if(0 == error_) {
+                    break;
                 }
-
-                for(size_t ii = 0; ii < uint64_t(error_); ++ii) {
-                    std::get<1>(allocations_[ii % allocations_.size()]) -= 1;
+                if(excess_demand_ ? a <= 0 : a >= 0) {
+                    continue;
                 }
+                // allocations are sorted from small to large, so what the small
+                // ones can not bear is borne by the large ones
+                auto share_ = error_ / rationed_ + (error_ % rationed_ > 0) - (error_ % rationed_ < 0);
+                auto correction_ = excess_demand_ ? std::min(a, share_) : std::max(a, share_);
+                a -= correction_;
+                error_ -= correction_;
+                --rationed_;
             }
             auto pair_ = transfers_.emplace(property_->identifier, map<identity<agent>, int64_t>());
 
-- 
2.43.0


From fc1e3d5c2e1440db333a41194906f5b188a2e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 76/99] fix: buying back a short position costs the price its
 sellers receive

---
 esl/economics/markets/walras/price_setter.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index e8b3ff3..bdd6607 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -286,8 +286,6 @@ namespace esl::economics::markets::walras {
             std::shared_ptr<walras::differentiable_order_message>> &orders,
         const simulation::time_interval &step)
     {
-        law::property_map<quote> old_quotes_ = traded_properties;
-
         tatonnement::excess_demand_model model_(traded_properties);
         for(auto [key, function_] : orders) {
             (void)key;
@@ -440,10 +438,10 @@ namespace esl::economics::markets::walras {
                         // auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
                         //
                         auto s = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-                        auto o = old_quotes_.find(property_);
-                        auto collateral_ = usd_->amount(cancel_ * double(std::get<price>(o->second.type)) / o->second.lot);
+                        // property that is bought back costs what its sellers receive
+                        auto cost_ = usd_->amount(cancel_ * double(std::get<price>(data_.type)) / data_.lot);
 
-                        s->second.insert(usd_, collateral_);
+                        s->second.insert(usd_, cost_);
                         v -= cancel_;
                     }
 
-- 
2.43.0


From 8b896155baf138536b85f5325c395dca0d7ea04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 77/99] fix: netting of transfers in the Walrasian market keeps
 what both sides are due

---
 esl/economics/markets/walras/price_setter.cpp | 53 ++++++++-----------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index bdd6607..aa955c9 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -489,39 +489,32 @@ namespace esl::economics::markets::walras {
         }
 
         // apply netting
-        for(auto &[p, i_r] : receive_) {
-            auto offset_ = send_.find(p);
-            if(send_.end() == offset_) {
-                continue;
-            }
-
-            for(auto &[k, v] : i_r.items) {
-                if(0 == v.amount){
-                    //i_r.items.erase(k);
-                    continue;
-                }
-
-                auto property_ = offset_->second.items.find(k);
-                if(offset_->second.items.end() == property_) {
-                    continue;
+        for(auto r = receive_.begin(); r != receive_.end(); ) {
+            auto offset_ = send_.find(r->first);
+            if(send_.end() != offset_) {
+                auto &received_ = r->second.items;
+                auto &sent_     = offset_->second.items;
+                for(auto i = received_.begin(); i != received_.end(); ) {
+                    auto property_ = sent_.find(i->first);
+                    if(sent_.end() == property_) {
+                        ++i;
+                    } else if(i->second > property_->second) {  // receiving more than sending
+                        i->second = i->second - property_->second;
+                        sent_.erase(property_);
+                        ++i;
+                    } else if(i->second < property_->second) {  // sending more than receiving
+                        property_->second = property_->second - i->second;
+                        i = received_.erase(i);
+                    } else {  // sending and receiving same amount
+                        sent_.erase(property_);
+                        i = received_.erase(i);
+                    }
                 }
-                // receiving more than sending
-                if(v > property_->second) {
-                    auto diff_ = v - property_->second;
-                    v          = diff_;
-                    offset_->second.items.erase(property_);
-                } else if(v < property_->second) {  // sending more than recv
-                    auto diff_        = property_->second - v;
-                    property_->second = diff_;
-                    //i_r.items.erase(k);
-                } else {  // sending and rececing same amount
-                    //i_r.items.erase(k);
-                    offset_->second.items.erase(property_);
+                if(sent_.empty()) {
+                    send_.erase(offset_);
                 }
             }
-            if(i_r.items.empty()){
-                receive_.erase(p);
-            }
+            r = r->second.items.empty() ? receive_.erase(r) : std::next(r);
         }
 
 
-- 
2.43.0


From 7ac6343c2b026788a5c64ca7436bc59796621954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 78/99] fix: trades in the Walrasian market settle in the
 currency of the quote

---
 esl/economics/markets/walras/price_setter.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index aa955c9..df3b501 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -401,13 +401,13 @@ namespace esl::economics::markets::walras {
         //  receive_: we, the market maker, receive items from participant
         map<identity<agent>, accounting::inventory_filter<law::property>> send_, receive_;
 
-        auto usd_ = std::make_shared<cash>(currencies::USD);
-
         for(const auto &[property_, data_] : traded_properties) {
             // if no agents expressed interest, transfers_ might be empty
             if(transfers_.end() == transfers_.find(*property_)) {
                 continue;
             }
+            // trades are settled in the currency of the quote
+            auto cash_ = std::make_shared<cash>(std::get<price>(data_.type).valuation);
             for(auto &[p, v] : transfers_.find(*property_)->second) {
                 if(v == 0) {
                     continue;
@@ -439,9 +439,9 @@ namespace esl::economics::markets::walras {
                         //
                         auto s = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
                         // property that is bought back costs what its sellers receive
-                        auto cost_ = usd_->amount(cancel_ * double(std::get<price>(data_.type)) / data_.lot);
+                        auto cost_ = cash_->amount(cancel_ * double(std::get<price>(data_.type)) / data_.lot);
 
-                        s->second.insert(usd_, cost_);
+                        s->second.insert(cash_, cost_);
                         v -= cancel_;
                     }
 
@@ -453,7 +453,7 @@ namespace esl::economics::markets::walras {
 
                         // they should send cash for the purchase
                         auto r = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-                        r->second.insert(usd_, usd_->amount(v * double(std::get<price>(data_.type)) / data_.lot));
+                        r->second.insert(cash_, cash_->amount(v * double(std::get<price>(data_.type)) / data_.lot));
                     }
                 }else{  // v < 0 so participant wants to sell/short
 
@@ -466,8 +466,8 @@ namespace esl::economics::markets::walras {
                         r->second.insert(property_, quantity(cancel_));
 
                         auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
-                        auto proceeds_ = usd_->amount(cancel_ * double(std::get<price>(data_.type)) / data_.lot);
-                        s->second.insert(usd_, proceeds_);
+                        auto proceeds_ = cash_->amount(cancel_ * double(std::get<price>(data_.type)) / data_.lot);
+                        s->second.insert(cash_, proceeds_);
                         v += cancel_;
                     }
 
@@ -479,9 +479,9 @@ namespace esl::economics::markets::walras {
                         auto short_contract_ = std::make_shared<securities_lending_contract>(identifier, p, property_->identifier, quantity(1));
                         auto s = send_.emplace( p, accounting::inventory_filter<law::property>()).first;
 
-                        auto sale_ = usd_->amount(amount_to_extend * double(std::get<price>(data_.type)) / data_.lot);
+                        auto sale_ = cash_->amount(amount_to_extend * double(std::get<price>(data_.type)) / data_.lot);
 
-                        s->second.insert(usd_, sale_);
+                        s->second.insert(cash_, sale_);
                         s->second.insert(short_contract_, quantity(amount_to_extend));
                     }
                 }
-- 
2.43.0


From 075fc8940972344ca43af15febd4eef956e819c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 79/99] fix: property bought in the Walrasian market is sent
 along with other transfers

---
 esl/economics/markets/walras/price_setter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index df3b501..7d745b2 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -447,9 +447,9 @@ namespace esl::economics::markets::walras {
 
                     if(uint64_t(v) > 0){
                         //LOG(trace) << p << " purchased additional " << v << std::endl;
-                        accounting::inventory_filter<law::property> purchased_;
-                        purchased_.insert(property_, quantity(uint64_t(v)));
-                        send_.emplace(p, purchased_);
+                        // they may already be sent other property
+                        auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
+                        s->second.insert(property_, quantity(uint64_t(v)));
 
                         // they should send cash for the purchase
                         auto r = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-- 
2.43.0


From 249329891cdf57f7bbf78ac76fb7b9be06f587ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 80/99] fix: the univariate root finder of the Walrasian market
 iterates until it finds a root

---
 esl/economics/markets/walras/tatonnement.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index c60759d..ed1fd64 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -457,6 +457,10 @@ namespace esl::economics::markets::tatonnement {
                             status_ = GSL_SUCCESS;
                             break;
                         }
+                        // the step succeeded, but it did not find a root yet
+                        if(GSL_SUCCESS == status_) {
+                            status_ = GSL_CONTINUE;
+                        }
                         //status_ = gsl_root_test_delta (xt, x0, delta_absolute_tolerance, delta_relative_tolerance);
                     } while (GSL_CONTINUE == status_ && iteration_ < max_iterations);
 
-- 
2.43.0


From 1f727b0c215a49d589098876172084dfa0bf0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:06 +0000
Subject: [PATCH 81/99] fix: initialise the step size of the Walrasian market's
 simplex minimizer

---
 esl/economics/markets/walras/tatonnement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index ed1fd64..abfaeff 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -640,6 +640,7 @@ namespace esl::economics::markets::tatonnement {
             }else if (method_ == derivative_free_minimization) {
 // TODO: set adaptively
                 auto initial_step_size         = gsl_vector_alloc(active_.size());
+                gsl_vector_set_all(initial_step_size, 0.1);
 
                 constexpr double error_tolerance         = 0.0001;
 
-- 
2.43.0


From a37d300082ea564a434ad5bd5e9255865161a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 82/99] fix: exchange positions record what participants buy
 and sell

---
 esl/economics/markets/centralized_exchange.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 2608147..232a269 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -359,6 +359,18 @@ namespace esl::economics::markets {
                                         ));
                 }
 
+                // record what the participant traded during the session
+                if(r.state == execution_report::state_t::match) {
+                    auto positions_ = positions.find(m->order_details.symbol);
+                    if(positions.end() != positions_) {
+                        auto individual_ = positions_->second.find(r.owner);
+                        if(positions_->second.end() != individual_) {
+                            (r.side == limit_order::buy ? individual_->second.bought
+                                                        : individual_->second.sold) += r.quantity;
+                        }
+                    }
+                }
+
                 // notify the participants involved in the trade
                 {
                     simulation::time_point arrival_ = ti.lower;
-- 
2.43.0


From 35d576c61b6749ea30180f471a12e07686708dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 83/99] fix: decrementing a quantity of zero is refused like
 other subtractions

---
 esl/quantity.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index b293e1b..f1367bb 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            --amount;
+            (*this) -= quantity(1);
             return *this;
         }
 
@@ -333,6 +333,9 @@ namespace esl {
 
         [[nodiscard]] constexpr quantity operator -- (int)
         {
+            if(0 == amount) {
+                throw esl::exception("subtraction results in negative quantity");
+            }
             return quantity(amount--);
         }
 
-- 
2.43.0


From ff663da1992d8ea7b71e52e279eeba41a8f15c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 84/99] fix: the Python module compiles and can be imported

---
 esl/python_module_esl.cpp | 160 ++++++++++++++++++--------------------
 1 file changed, 77 insertions(+), 83 deletions(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index 26ebbdd..f173273 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -686,6 +686,7 @@ void set_isin_code(finance::isin &i, const std::string &code)
 #include <esl/economics/markets/ticker.hpp>
 
 #include <esl/economics/markets/centralized_exchange.hpp>
+#include <esl/economics/markets/order_status_response_message.hpp>
 using namespace esl::economics::markets;
 
 
@@ -712,12 +713,6 @@ boost::shared_ptr<quote> construct_quote_from_price(price p)
 }
 
 
-boost::shared_ptr<quote> construct_quote_from_exchange_rate(const exchange_rate &e)
-{
-    return boost::make_shared<quote>(e);
-}
-
-
 boost::shared_ptr<ticker> python_ticker_constructor(const python_identity &base_property = python_identity()
              , const python_identity &quote_property = python_identity())
 {
@@ -1732,6 +1727,76 @@ BOOST_PYTHON_MODULE(_esl)
     }
 
 
+    ////////////////////////////////////////////////////////////////////////////
+    // esl.interaction
+    ////////////////////////////////////////////////////////////////////////////
+    {
+        boost::python::scope scope_interaction_ = create_scope("_interaction");
+
+        def("make_callback_handle", &make_callback_handle);
+
+        class_<communicator::callback_handle>("callback_handle");
+
+        class_<communicator::callback_t>("callback_t")
+            .def_readwrite("function", &communicator::callback_t::function)
+            .def_readwrite("description",
+                           &communicator::callback_t::description)
+            .def_readwrite("message", &communicator::callback_t::message)
+            .def_readwrite("file", &communicator::callback_t::file)
+            .def_readwrite("line", &communicator::callback_t::line)
+            //.def("__call__", &communicator::callback_t::operator ())
+            ;
+
+        enum_<communicator::scheduling>("scheduling")
+            .value("in_order", communicator::scheduling::in_order)
+            .value("random", communicator::scheduling::random);
+
+        class_<communicator::inbox_t>("inbox_t").def(
+            multimap_indexing_suite<communicator::inbox_t>())
+//            .def( "insert"
+//                , +[](const ... &r){return ; }
+//                )
+            ;
+
+
+        class_<communicator::outbox_t>("outbox_t")
+            .def(
+                boost::python::vector_indexing_suite<communicator::outbox_t>());
+
+        class_<communicator>("communicator")
+            .def("send_message", send_message_python)
+            .def_readwrite("inbox", &communicator::inbox)
+            .def_readwrite("outbox", &communicator::outbox);
+
+
+        class_<header>("header",
+                       init<message_code, python_identity, python_identity,
+                            simulation::time_point, simulation::time_point>())
+            .def(init<message_code, python_identity, python_identity,
+                      simulation::time_point>())
+            .def(init<message_code, python_identity, python_identity>())
+            .def(init<message_code, python_identity>())
+            .def(init<message_code>())
+            .def(init<message_code>())
+            .def_readwrite("type", &header::type)
+
+            .add_property("sender"
+                , +[](const header &r){return (python_identity)(r.sender); }
+                , +[](header &r, const python_identity &i){ r.sender = reinterpret_identity_cast<agent>(i); }
+            )
+
+            .add_property("recipient"
+                , +[](const header &r){return (python_identity)(r.recipient); }
+                , +[](header &r, const python_identity &i){ r.recipient = reinterpret_identity_cast<agent>(i); }
+            )
+
+            .def_readwrite("sent", &header::sent)
+            .def_readwrite("received", &header::received);
+
+        class_<python_message, bases<header>>("message").def_readonly(
+            "code", &python_message::python_code);
+    }
+
     ////////////////////////////////////////////////////////////////////////////
     // esl.economics
     ////////////////////////////////////////////////////////////////////////////
@@ -2082,7 +2147,6 @@ BOOST_PYTHON_MODULE(_esl)
 
             class_<quote, boost::shared_ptr<quote>>("quote", no_init)
                 .def("__init__", boost::python::make_constructor( construct_quote_from_price))
-                .def("__init__", boost::python::make_constructor( construct_quote_from_exchange_rate))
                 .add_property("price", &quote_helper_get_price, &quote_helper_set_price)
                 .def_readwrite("lot", &quote::lot)
                 .def(self == self)
@@ -2125,7 +2189,9 @@ BOOST_PYTHON_MODULE(_esl)
             ////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 
-            class_<centralized_exchange, bases<market>>("centralized_exchange", no_init)
+            class_<market, boost::noncopyable>("market", no_init);
+
+            class_<centralized_exchange, bases<market>, boost::noncopyable>("centralized_exchange", no_init)
                 .def("__init__", make_constructor(python_centralized_exchange_constructor))
                 .def_readwrite("positions", &centralized_exchange::positions)
             ;
@@ -2164,7 +2230,7 @@ BOOST_PYTHON_MODULE(_esl)
             ;
 
 
-            class_<order_status_request, bases<header>>("order_status_request")
+            class_<order_status_request_message, bases<header>>("order_status_request_message")
             ;
 
 
@@ -2172,8 +2238,8 @@ BOOST_PYTHON_MODULE(_esl)
             ;
 
 
-            class_<new_order_single, bases<header>>("new_order_single")
-            .def_readwrite("order_details", &new_order_single::order_details)
+            class_<new_order_single_message, bases<header>>("new_order_single_message")
+            .def_readwrite("order_details", &new_order_single_message::order_details)
             ;
 
 
@@ -2478,7 +2544,6 @@ BOOST_PYTHON_MODULE(_esl)
             scope().attr("IE") = esl::geography::countries::IE;
             scope().attr("IL") = esl::geography::countries::IL;
             scope().attr("IM") = esl::geography::countries::IM;
-            scope().attr("IN") = esl::geography::countries::IN;
             scope().attr("IO") = esl::geography::countries::IO;
             scope().attr("IQ") = esl::geography::countries::IQ;
             scope().attr("IR") = esl::geography::countries::IR;
@@ -2627,76 +2692,6 @@ BOOST_PYTHON_MODULE(_esl)
     }
 
 
-    ////////////////////////////////////////////////////////////////////////////
-    // esl.interaction
-    ////////////////////////////////////////////////////////////////////////////
-    {
-        boost::python::scope scope_interaction_ = create_scope("_interaction");
-
-        def("make_callback_handle", &make_callback_handle);
-
-        class_<communicator::callback_handle>("callback_handle");
-
-        class_<communicator::callback_t>("callback_t")
-            .def_readwrite("function", &communicator::callback_t::function)
-            .def_readwrite("description",
-                           &communicator::callback_t::description)
-            .def_readwrite("message", &communicator::callback_t::message)
-            .def_readwrite("file", &communicator::callback_t::file)
-            .def_readwrite("line", &communicator::callback_t::line)
-            //.def("__call__", &communicator::callback_t::operator ())
-            ;
-
-        enum_<communicator::scheduling>("scheduling")
-            .value("in_order", communicator::scheduling::in_order)
-            .value("random", communicator::scheduling::random);
-
-        class_<communicator::inbox_t>("inbox_t").def(
-            multimap_indexing_suite<communicator::inbox_t>())
-//            .def( "insert"
-//                , +[](const ... &r){return ; }
-//                )
-            ;
-
-
-        class_<communicator::outbox_t>("outbox_t")
-            .def(
-                boost::python::vector_indexing_suite<communicator::outbox_t>());
-
-        class_<communicator>("communicator")
-            .def("send_message", send_message_python)
-            .def_readwrite("inbox", &communicator::inbox)
-            .def_readwrite("outbox", &communicator::outbox);
-
-
-        class_<header>("header",
-                       init<message_code, python_identity, python_identity,
-                            simulation::time_point, simulation::time_point>())
-            .def(init<message_code, python_identity, python_identity,
-                      simulation::time_point>())
-            .def(init<message_code, python_identity, python_identity>())
-            .def(init<message_code, python_identity>())
-            .def(init<message_code>())
-            .def(init<message_code>())
-            .def_readwrite("type", &header::type)
-
-            .add_property("sender"
-                , +[](const header &r){return (python_identity)(r.sender); }
-                , +[](header &r, const python_identity &i){ r.sender = reinterpret_identity_cast<agent>(i); }
-            )
-
-            .add_property("recipient"
-                , +[](const header &r){return (python_identity)(r.recipient); }
-                , +[](header &r, const python_identity &i){ r.recipient = reinterpret_identity_cast<agent>(i); }
-            )
-
-            .def_readwrite("sent", &header::sent)
-            .def_readwrite("received", &header::received);
-
-        class_<python_message, bases<header>>("message").def_readonly(
-            "code", &python_message::python_code);
-    }
-
     ////////////////////////////////////////////////////////////////////////////
     // esl.law
     ////////////////////////////////////////////////////////////////////////////
@@ -2859,7 +2854,6 @@ BOOST_PYTHON_MODULE(_esl)
             scope().attr("HN") = esl::law::jurisdictions::HN;
             scope().attr("HU") = esl::law::jurisdictions::HU;
             scope().attr("IS") = esl::law::jurisdictions::IS;
-            scope().attr("IN") = esl::law::jurisdictions::IN;
             scope().attr("ID") = esl::law::jurisdictions::ID;
             scope().attr("IR") = esl::law::jurisdictions::IR;
             scope().attr("IQ") = esl::law::jurisdictions::IQ;
-- 
2.43.0


From 6fb82981c75f1c32b75deb03737857875d41aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 85/99] fix: currency codes are complete and can be printed in
 Python

---
 esl/python_module_esl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index f173273..3b2d4d7 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -563,7 +563,7 @@ using namespace esl::law;
 
 std::string python_currency_code(const iso_4217 &c)
 {
-    return (std::string() + c.code[0]) + c.code[1];
+    return std::string(c.code.begin(), c.code.end());
 }
 
 double python_price_to_floating_point(const price &p)
@@ -1806,8 +1806,8 @@ BOOST_PYTHON_MODULE(_esl)
         class_<iso_4217>("iso_4217")
             .add_property("code", python_currency_code)
             .add_property("denominator", &iso_4217::denominator)
-            .add_property("__repr__", python_currency_code)
-            .add_property("__str__", python_currency_code);
+            .def("__repr__", python_currency_code)
+            .def("__str__", python_currency_code);
 
         class_<std::map<finance::share_class, std::uint64_t>>("map_share_class_uint64_t")
             .def(map_indexing_suite<std::map<finance::share_class, std::uint64_t>>())
-- 
2.43.0


From 2678db69532659b3e175596ad405bdaca172727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 86/99] fix: warnings and errors logged from Python keep their
 severity

---
 esl/python_module_esl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index 3b2d4d7..3de36fe 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -536,10 +536,10 @@ void python_log_detailed( esl::data::severity level
         main_log.get<severity::notice>(function.c_str(), file.c_str(), static_cast<unsigned int>(line)) << render_ << std::endl;
         break;
     case severity::warning:
-        main_log.get<severity::notice>(function.c_str(), file.c_str(), static_cast<unsigned int>(line)) << render_ << std::endl;
+        main_log.get<severity::warning>(function.c_str(), file.c_str(), static_cast<unsigned int>(line)) << render_ << std::endl;
         break;
     case severity::errorlog:
-        main_log.get<severity::notice>(function.c_str(), file.c_str(), static_cast<unsigned int>(line)) << render_ << std::endl;
+        main_log.get<severity::errorlog>(function.c_str(), file.c_str(), static_cast<unsigned int>(line)) << render_ << std::endl;
         break;
 
     default:
-- 
2.43.0


From 3ad6a1b631539f46c73e6e8fc19fec1bc45a55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 87/99] fix: quantities can be divided in Python

---
 esl/python_module_esl.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index 3de36fe..19e1252 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -1595,7 +1595,17 @@ BOOST_PYTHON_MODULE(_esl)
         .def("__str__", &quantity::representation)
         .def(self *= std::uint64_t())
         .def(self * std::uint64_t())
-        .def(self / std::uint64_t());
+        .def("__truediv__", +[](const quantity &q, std::uint64_t divisor) {
+            if(0 == divisor) {
+                PyErr_SetString(PyExc_ZeroDivisionError, "a quantity can not be split in zero parts");
+                throw_error_already_set();
+            }
+            boost::python::list result_;
+            for(const auto &part_ : q / divisor) {
+                result_.append(part_);
+            }
+            return result_;
+        });
 
         //class_<entity<void>>("entity");
 
-- 
2.43.0


From 2928035dbe251a4af34649b9d1706f4f5044d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 88/99] fix: owners of orders and reports and the base of a
 ticker can be read in Python

---
 esl/python_module_esl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index 19e1252..f61f18d 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -2175,7 +2175,7 @@ BOOST_PYTHON_MODULE(_esl)
             class_<ticker>("ticker", no_init)
                 .def("__init__", make_constructor(python_ticker_constructor))
                 .add_property("base"
-                    , +[](const ticker &r){return reinterpret_identity_cast<python_identity>(r.base); }
+                    , +[](const ticker &r){return (python_identity)(r.base); }
                     , +[](ticker &r, const python_identity &i){ r.base = reinterpret_identity_cast<law::property>(i); }
                                )
                 .add_property("quote"
@@ -2301,7 +2301,7 @@ BOOST_PYTHON_MODULE(_esl)
                     .def_readwrite("side", &execution_report::side)
                     .def_readwrite("limit", &execution_report::limit)
                     .add_property ("owner"
-                                   , +[](const execution_report &r){return reinterpret_identity_cast<python_identity>(r.owner); }
+                                   , +[](const execution_report &r){return (python_identity)(r.owner); }
                                   , +[](execution_report &r, const python_identity &i){ r.owner = reinterpret_identity_cast<agent>(i); }
                                   )
                     .def("__repr__", &execution_report::representation)
@@ -2335,7 +2335,7 @@ BOOST_PYTHON_MODULE(_esl)
                     .def_readwrite("side", &limit_order::side)
                     .def_readwrite("symbol", &limit_order::symbol)
                     .add_property ( "owner"
-                                    , +[](const limit_order &r){return reinterpret_identity_cast<python_identity>(r.owner); }
+                                    , +[](const limit_order &r){return (python_identity)(r.owner); }
                                   , +[](limit_order &r, const python_identity &i){ r.owner = reinterpret_identity_cast<agent>(i); } )
                     .def_readwrite("limit", &limit_order::limit)
                     .def_readwrite("quantity", &limit_order::quantity)
-- 
2.43.0


From 72b61e8a24221e70b500850ba3b4c6554280f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 89/99] fix: callback handles keep the Python function they
 call

---
 esl/python_module_esl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index f61f18d..ed5737e 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -1008,7 +1008,7 @@ communicator::callback_handle make_callback_handle(boost::python::object f)
     //                                      , std::seed_seq &
     //                                      )>;
 
-    return [&]( communicator::message_t m
+    return [f]( communicator::message_t m
         , simulation::time_interval i
         , std::seed_seq &s
     )
-- 
2.43.0


From 5cd6f127efee3ac183be418723fc6bab35886b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 90/99] fix: price parameters and the identifier of a world can
 be read in Python

---
 esl/python_module_esl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index ed5737e..56d6a08 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -1503,6 +1503,11 @@ boost::python::object parametrization_get_helper(const parametrization &p, const
         return result_.value();
     }
 
+    result_ = pack<price>(parameter_->second);
+    if(result_.has_value()){
+        return result_.value();
+    }
+
     throw esl::exception("parametrization[" + name + "] can't be converted to Python");
 }
 
@@ -3093,7 +3098,7 @@ BOOST_PYTHON_MODULE(_esl)
 
 
         class_<world, boost::noncopyable>("world")
-            .def_readonly("identifier", &world::identifier)
+            .add_property("identifier", +[](const world &w){return (python_identity)(w.identifier); })
             .def("__repr__", &world::representation)
             .def("__str__", &world::representation)
             .def("create", &create_identity<world>)
-- 
2.43.0


From d093c7864f4428aa05a1f7ed301766298a4f65c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 91/99] fix: hooks of Python environments receive the model,
 local agents can be listed

---
 esl/python_module_esl.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index 56d6a08..1c64ea7 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -412,7 +412,7 @@ public:
         boost::python::override method_ = get_override("step");
 
         if(!method_.is_none()){
-            method_(simulation);
+            method_(boost::python::ptr(&simulation));
             return;
         }
         environment::step(simulation);
@@ -423,7 +423,7 @@ public:
         boost::python::override o = get_override("run");
 
         if(!o.is_none()){
-            o(simulation);
+            o(boost::python::ptr(&simulation));
             return;
         }
         environment::run(simulation);
@@ -464,7 +464,7 @@ public:
     {
         boost::python::override method_ = get_override("after_step");
         if(!method_.is_none()){
-            method_(simulation);
+            method_(boost::python::ptr(&simulation));
         }else{
             environment::after_step(simulation);
         }
@@ -474,7 +474,7 @@ public:
     {
         boost::python::override method_ = get_override("after_run");
         if(!method_.is_none()){
-            method_(simulation);
+            method_(boost::python::ptr(&simulation));
         }else {
             environment::after_run(simulation);
         }
@@ -494,7 +494,7 @@ public:
     {
         boost::python::override method_ = get_override("send_messages");
         if(!method_.is_none()){
-            boost::python::object result_ = method_(simulation);
+            boost::python::object result_ = method_(boost::python::ptr(&simulation));
             return boost::python::extract<size_t>(result_);
         }else {
             return environment::send_messages(simulation);
@@ -1309,7 +1309,7 @@ boost::python::dict agent_collection_local_agents(const agent_collection &c)
     boost::python::dict result_;
 
     for(const auto &[k,v]: c.local_agents_){
-        result_[boost::python::object(k)] = boost::python::object(v);
+        result_[boost::python::object(python_identity(k))] = boost::python::object(boost::python::ptr(v.get()));
     }
 
     return result_;
-- 
2.43.0


From 5884809b506bdf06d5cdd9260a471e0f2b2e1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 92/99] fix: overrides in Python can call the implementation
 they override

---
 esl/python_module_esl.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index 1c64ea7..ec07142 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -1619,8 +1619,9 @@ BOOST_PYTHON_MODULE(_esl)
               //, bases<communicator>
               >("agent", init<python_identity>())
 
-            .def("describe", &python_agent::describe)
-            .def("act", &python_agent::act)
+            // overrides in Python can call the implementation they override
+            .def("describe", +[](const python_agent &a){return a.agent::describe(); })
+            .def("act", +[](python_agent &a, simulation::time_interval step, std::seed_seq &seed){return a.agent::act(step, seed); })
             .add_property( "identifier"
                          , +[](const python_agent &a){return (python_identity)(a.identifier); }
                          )
@@ -1658,16 +1659,16 @@ BOOST_PYTHON_MODULE(_esl)
         // computational environment base class with default single thread
         class_<python_environment, boost::noncopyable>(
             "environment", "The environment class runs models: it schedules agents and delivers messages sent between agents.")
-            .def("step", &python_environment::step)
-            .def("run", &python_environment::run)
-            .def("activate", &python_environment::activate)
-            .def("deactivate", &python_environment::deactivate)
-            .def("before_step", &python_environment::before_step)
-            .def("after_step", &python_environment::after_step)
-            .def("after_run", &python_environment::after_run)
+            .def("step", +[](python_environment &e, simulation::model &m){return e.environment::step(m); })
+            .def("run", +[](python_environment &e, simulation::model &m){return e.environment::run(m); })
+            .def("activate", +[](python_environment &e){return e.environment::activate(); })
+            .def("deactivate", +[](python_environment &e){return e.environment::deactivate(); })
+            .def("before_step", +[](python_environment &e){return e.environment::before_step(); })
+            .def("after_step", +[](python_environment &e, simulation::model &m){return e.environment::after_step(m); })
+            .def("after_run", +[](python_environment &e, simulation::model &m){return e.environment::after_run(m); })
             .def("activate_agent", &python_environment::activate_agent)
             .def("deactivate_agent", &python_environment::deactivate_agent)
-            .def("send_messages", &python_environment::send_messages)
+            .def("send_messages", +[](python_environment &e, simulation::model &m){return e.environment::send_messages(m); })
             ;
 
         // timing information
@@ -3074,9 +3075,9 @@ BOOST_PYTHON_MODULE(_esl)
            .def_readwrite("end", &python_model::end)
            .def_readwrite("time", &python_model::time)
            .def_readonly("sample", &python_model::sample)
-           .def("initialize", &python_model::initialize)
-           .def("step", &python_model::step)
-           .def("terminate", &python_model::terminate)
+           .def("initialize", +[](python_model &m){m.model::initialize(); })
+           .def("step", +[](python_model &m, time_interval step){return m.model::step(step); })
+           .def("terminate", +[](python_model &m){m.model::terminate(); })
            .def_readonly("world", &python_model::world)
            .def_readwrite("agents", &python_model::agents)
            ;
-- 
2.43.0


From 7cf0ae6fd1e6ff6035fab41e50a538e6323b37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 93/99] fix: order quantities from Python that do not fit are
 refused, not truncated

---
 esl/python_module_esl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index ec07142..550e34b 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -746,7 +746,7 @@ boost::shared_ptr<limit_order> python_limit_order_message_constructor
     , const python_identity &owner
     , limit_order::side_t side
     , const quote &limit
-    , std::uint64_t quantity
+    , std::uint32_t quantity
     , limit_order::lifetime_t lifetime // = good_until_cancelled
     )
 {
-- 
2.43.0


From f75be02bb86072febb25c693a59547147ac8b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 94/99] fix: the best quotes of a tree order book can be read
 in Python

---
 esl/python_module_esl.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/esl/python_module_esl.cpp b/esl/python_module_esl.cpp
index 550e34b..616267f 100644
--- a/esl/python_module_esl.cpp
+++ b/esl/python_module_esl.cpp
@@ -2380,11 +2380,7 @@ BOOST_PYTHON_MODULE(_esl)
                 class_<binary_tree_order_book, bases<basic_book>>(
                     "binary_tree_order_book", init<>())
                     .def_readwrite("reports", &basic_book::reports)
-                    .def("ask", &basic_book::ask)
-                    .def("bid", &basic_book::bid)
-                    .def("insert", &basic_book::insert)
-                    .def("cancel", &basic_book::cancel)
-                    .def("display", &basic_book::display);
+                    ;
 
                 class_<matching_engine>("matching_engine", init<>())
                     .def_readwrite("books", &matching_engine::books)
-- 
2.43.0


From ce1b855d1a43599eabba72c344a476fd86602d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 95/99] fix: the reader of OpenBook files did not compile

---
 esl/data/format/openbook.hpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index 72ed269..08a8380 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -28,11 +28,34 @@
 #ifndef ESL_OPENBOOK_HPP
 #define ESL_OPENBOOK_HPP
 
+#include <array>
+#include <cmath>
+#include <cstdint>
+#include <fstream>
+#include <functional>
+#include <iostream>
+#include <string>
+#include <tuple>
+#include <utility>
+#include <vector>
+
 #include <boost/algorithm/string.hpp>
+#include <boost/endian/conversion.hpp>
 
+#include <esl/economics/currencies.hpp>
+#include <esl/economics/markets/order_book/order.hpp>
+#include <esl/economics/markets/quote.hpp>
+#include <esl/economics/price.hpp>
+#include <esl/simulation/time.hpp>
 
 
 namespace esl::data {
+    using economics::currencies::USD;
+    using economics::markets::order_book::limit_order;
+    using economics::markets::quote;
+    using economics::price;
+    using simulation::time_point;
+
     namespace detail {
     /// 
     /// \brief  Utility function, not for general use. 
@@ -45,7 +68,7 @@ namespace esl::data {
     template<typename binary_t_, typename buffer_t_ = char>
     binary_t_ &convert_endian_aware(buffer_t_ *intrusive)
     {
-        if constexpr(std::endian::native == std::endian::little) {
+        if constexpr(boost::endian::order::native == boost::endian::order::little) {
             buffer_t_ *s = intrusive;
             buffer_t_ *e = intrusive + sizeof(binary_t_) - 1;
 
@@ -62,7 +85,7 @@ namespace esl::data {
     /// \brief VERSION 1.2b for files created 2017-04-20 and after
     ///
     // template<unsigned int major_version = 1, unsigned int minor_version = 2>
-    void read_openbook(
+    inline void read_openbook(
         const std::string &filename,
         std::function<void(const std::string &, char, char, time_point,
                            const quote &, const std::uint32_t &,
@@ -321,7 +344,7 @@ namespace esl::data {
     ///
     ///
     ///
-    std::vector<std::tuple<std::string, char, char, time_point, quote,
+    inline std::vector<std::tuple<std::string, char, char, time_point, quote,
                            std::uint32_t, limit_order::side_t>>
     parse_main_session(const std::string &filename,
                        const std::string &filter_symbol)
-- 
2.43.0


From 9a1177fcff4afc7ebdf323c980af249839eaa001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 96/99] fix: times of OpenBook messages after 01:11 overflowed

---
 esl/data/format/openbook.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index 08a8380..975414d 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -315,7 +315,8 @@ namespace esl::data {
             //    << char('0' + PriceScaleCode) << "," << ChgQty << "," << Side
             //    << std::endl;
 
-            time_point time_ = SourceTime * 1000 + SourceTimeMicroSecs;
+            // milliseconds since midnight in microseconds exceed 32 bits
+            time_point time_ = time_point(SourceTime) * 1000 + SourceTimeMicroSecs;
 
             auto denom_ = std::pow<std::uint64_t>(10, PriceScaleCode);
             auto quote_ =
-- 
2.43.0


From dcd6124cd2f10fc9c5b8f408d1354c46dc249f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 97/99] fix: OpenBook messages with prices of less than two
 decimals were refused

---
 esl/data/format/openbook.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index 975414d..a4fe904 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -319,8 +319,10 @@ namespace esl::data {
             time_point time_ = time_point(SourceTime) * 1000 + SourceTimeMicroSecs;
 
             auto denom_ = std::pow<std::uint64_t>(10, PriceScaleCode);
-            auto quote_ =
-                quote(price(PriceNumerator, USD), denom_ / USD.denominator);
+            // prices with fewer decimals than the currency are quoted per unit
+            auto quote_ = denom_ < USD.denominator
+                ? quote(price(PriceNumerator * std::int64_t(USD.denominator / denom_), USD), 1)
+                : quote(price(PriceNumerator, USD), denom_ / USD.denominator);
 
             callback(Symbol, TradingStatus, ReasonCode, time_, quote_, ChgQty,
                      (Side == 'B' ? limit_order::side_t::buy
-- 
2.43.0


From d89e65d487b1132d5462160daecefe9465692c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 98/99] fix: a property that nobody asks for keeps its price
 instead of failing an assertion

---
 esl/economics/markets/walras/price_setter.cpp | 18 ++++++++++++++++++
 esl/economics/markets/walras/tatonnement.cpp  | 16 ++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 7d745b2..826715e 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -303,6 +303,24 @@ namespace esl::economics::markets::walras {
             return previous_;
         }
 
+        // properties without excess demand function keep their exact price
+        std::map<identity<law::property>, std::tuple<quote, double>> quotes_;
+        for(const auto &[k, v] : traded_properties) {
+            quotes_.emplace(k->identifier, std::make_tuple(v, result1_->find(k->identifier)->second));
+        }
+        std::map<identity<law::property>, double> unwanted_ = result1_.value();
+        for(const auto &[participant, order_] : orders) {
+            (void)participant;
+            for(const auto &[property_, excess_] : order_->excess_demand(quotes_)) {
+                (void)excess_;
+                unwanted_.erase(property_);
+            }
+        }
+        for(const auto &[property_, scalar_] : unwanted_) {
+            (void)scalar_;
+            result1_.value()[property_] = 1.;
+        }
+
         auto solution_ = apply_results(result1_.value(), traded_properties);
 
         ////////////////////////////////////////////////////////////////////////
diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index abfaeff..5ea0a3e 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -251,6 +251,15 @@ namespace esl::economics::markets::tatonnement {
             target_ += (pow(t, 2));
         }
 
+        n = 0;
+        for(auto [k, v]: quotes) {
+            // without excess demand function, a property keeps its quote
+            if(terms_map.find(*k) == terms_map.end()) {
+                target_ += (pow(x[n] - 1., 2));
+            }
+            ++n;
+        }
+
         //LOG(notice) << " clearing error " << target_.value() << std::endl;
         return target_;
     }
@@ -282,9 +291,12 @@ namespace esl::economics::markets::tatonnement {
         }
 
         std::vector<variable> result_;
+        n = 0;
         for(auto [k, v]: quotes) {
-            assert(terms_map.end() != terms_map.find(*k));
-            result_.push_back(terms_map.find(*k)->second);
+            auto i = terms_map.find(*k);
+            // without excess demand function, a property keeps its quote
+            result_.push_back(terms_map.end() != i ? i->second : variable(x[n] - 1.));
+            ++n;
         }
         return result_;
     }
-- 
2.43.0


From 11ddffb997eb3c805f80e7eaecc12dcd8358e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 99/99] fix: the Walrasian market records the volume of every
 property, also when there is none

---
 esl/economics/markets/walras/price_setter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 826715e..62885a3 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -412,7 +412,13 @@ namespace esl::economics::markets::walras {
 
         ////////////////////////////////////////////////////////////////////////
         auto transfers_ = compute_transfers(traded_properties, volumes_, orders_);
-        output_volumes_->put(step.lower, { std::uint64_t(volumes_.begin()->second )} );
+        std::vector<std::uint64_t> traded_volumes_;
+        for(const auto &[k, v] : traded_properties) {
+            (void)v;
+            auto i = volumes_.find(k->identifier);
+            traded_volumes_.push_back(volumes_.end() == i ? 0 : std::uint64_t(i->second));
+        }
+        output_volumes_->put(step.lower, traded_volumes_);
 
 
         //  send_: we, the market maker, send items to participant
-- 
2.43.0

