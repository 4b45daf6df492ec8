From a56bbd7e8c9306eacc68af96bf192d9797fea7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 01/80] fix: TaxableAccount no longer writes next year's acb
 early or over user inputs

Determining capital_gain stored the closing acb in the record of the
following year, displacing a user-supplied acb for that year and leaving
an entry for a year that had not started; capital_gain also went stale
when transactions were removed or replaced.
---
 forecaster/canada/accounts/taxable_account.py | 45 +++++++++++--------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 9bd3d78..2a8e28e 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -64,14 +64,16 @@ class TaxableAccount(Account):
     @recorded_property_cached
     def acb(self):
         """ The adjusted cost base of assets in the account this year. """
-        # This is set in advance in the previous year when capital_gains
-        # is determined.
-        # pylint: disable=no-member
-        # Pylint gets confused by attributes added via metaclass.
-        # they always have a corresponding *_history member:
-        return self._acb_history[self.this_year]
+        # This is set by `next_year`, based on the previous year's
+        # opening acb and transactions.
+        return self._opening_acb
 
-    @recorded_property_cached
+    @acb.setter
+    def acb(self, val):
+        """ Sets the adjusted cost base at the start of this year. """
+        self._opening_acb = val
+
+    @recorded_property
     def capital_gain(self):
         """ The capital gains (or losses) for this year.
 
@@ -80,6 +82,16 @@ class TaxableAccount(Account):
         activity. Therefore, changing any transactions will affect
         capital_gain.
         """
+        capital_gain, _ = self._apply_transactions()
+        return capital_gain
+
+    def _apply_transactions(self):
+        """ Determines the effect of this year's transactions.
+
+        Returns:
+            A `(capital_gain, acb)` tuple giving the capital gains
+            realized this year and the acb at the end of the year.
+        """
         acb = self.acb
         capital_gain = self.precision_convert(0)
         transactions = self.transactions
@@ -105,19 +117,14 @@ class TaxableAccount(Account):
                     self.precision_convert(1) - (acb / balance))
                 acb *= self.precision_convert(1) - (-value / balance)
 
-        # We've generated the ACB for the next year, so store it now.
-        self._acb_history[self.this_year + 1] = acb
-        return capital_gain
+        return capital_gain, acb
 
-    def add_transaction(self, value, when='end'):
-        super().add_transaction(value, when)
-        # Invalidate the cache for acb and capital gains, since
-        # transactions will affect it.
-        # pylint: disable=no-member
-        # Pylint gets confused by attributes added via metaclass.
-        # All `_*_history` members are dicts added automatically:
-        self._capital_gain_history.pop(self.this_year, None)
-        self._acb_history.pop(self.this_year + 1, None)
+    def next_year(self):
+        """ Advances to the next year and carries the acb forward. """
+        # Determine the closing acb before transactions are cleared:
+        _, acb = self._apply_transactions()
+        super().next_year()
+        self.acb = acb
 
     @recorded_property
     def taxable_income(self):
-- 
2.43.0


From 68f0d20d6e50845833e2d0855f3318d3f4f6eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 02/80] fix: SubForecast.next_year keeps past years'
 transactions on record

It cleared the very dict that had just been stored in
transactions_history, so every past year's record was emptied.
---
 forecaster/forecast/subforecast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb4e904..1048915 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -170,7 +170,10 @@ class SubForecast(Ledger):
         # are recorded with their current state:
         super().next_year()
         # There are no existing transactions at the start of the year:
-        self.transactions.clear()
+        # (Assign a new dict, since the old one is stored in
+        # `transactions_history`; clearing it would erase the record.)
+        self._transactions = TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
         self._call_invoked = False
 
     def __call__(self, available):
-- 
2.43.0


From 817f45b4a070a5344c531e6f9357b7270ab221e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 03/80] fix: SubForecast.undo_transactions forgets the
 transactions it reverses

Reversed transactions stayed on record, so calling a SubForecast a third
time in one year (or undoing twice) reversed them again.
---
 forecaster/forecast/subforecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 1048915..428b5d1 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -210,6 +210,8 @@ class SubForecast(Ledger):
             if account is not None:
                 for when, value in self.transactions[account].items():
                     account[when] -= value
+        # They're no longer in effect, so don't undo them again later:
+        self.transactions.clear()
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
-- 
2.43.0


From 302b596fe1ad575285f8b3ef34ef68c3aa374702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 04/80] fix: Account.balance grows last year's balance at last
 year's rate

The opening balance of a new year was computed with the new year's rate,
so with a rate that varies by year it differed from the closing balance
(and returns) of the year in which the growth occurred.
---
 forecaster/accounts/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6f4fc12..f387364 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -227,12 +227,14 @@ class Account(TaxSource):
         # This method isn't hidden in __init__; it's assigned to (by a
         # setter defined via metaclass)
 
-        # First, grow last year's initial balance based on the rate:
+        # First, grow last year's initial balance based on the rate
+        # (i.e. last year's rate, since that's when the growth occurs):
+        # pylint: disable=no-member
+        # Pylint gets confused by attributes added by metaclass.
+        rate = self._rate_history[self.this_year - 1]
         balance = value_at_time(
-            # pylint: disable=no-member
-            # Pylint gets confused by attributes added by metaclass.
             self._balance_history[self.this_year - 1],
-            self.rate, 'start', 'end', nper=self.nper,
+            rate, 'start', 'end', nper=self.nper,
             high_precision=self.high_precision)
 
         # Then, grow each transactions and add it to the year-end total.
@@ -243,7 +245,7 @@ class Account(TaxSource):
         transactions_history = self._transactions_history
         for when, value in transactions_history[self.this_year - 1].items():
             balance += value_at_time(
-                value, self.rate, when, 'end', nper=self.nper,
+                value, rate, when, 'end', nper=self.nper,
                 high_precision=self.high_precision)
 
         return balance
-- 
2.43.0


From 312d9da2fa69023e50cdec3959e148a77d00a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/80] fix: Account.get returns the transaction value

It returned None, and passed a keyword that dict.get does not accept.
---
 forecaster/accounts/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index f387364..dd5ce05 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -879,7 +879,7 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        self._transactions.get(key, default=default)
+        return self._transactions.get(key, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From a49aad94aee240bf472b9bc8af59a8af43405cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 06/80] fix: LinkedLimitAccount outflow limit setters write to
 the outflow links

They overwrote the shared inflow limits instead.
---
 forecaster/accounts/linked_limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index ac5b669..e5b9b0a 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -111,7 +111,7 @@ class LinkedLimitAccount(Account):
     @max_outflow_limit.setter
     def max_outflow_limit(self, value):
         """ Sets max_outflow_limit. """
-        self._set_limit(self.max_inflow_link, value)
+        self._set_limit(self.max_outflow_link, value)
 
     @property
     def min_outflow_limit(self):
@@ -122,7 +122,7 @@ class LinkedLimitAccount(Account):
     @min_outflow_limit.setter
     def min_outflow_limit(self, value):
         """ Sets min_outflow_limit. """
-        self._set_limit(self.min_inflow_link, value)
+        self._set_limit(self.min_outflow_link, value)
 
     def _get_limit(self, link, default=None):
         """ Gets the limit for a given linked group of accounts.
-- 
2.43.0


From 7c7917eddb35619d01cdc140667c760128a57506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 07/80] fix: linked accounts share a limit without sharing each
 other's balance

Transactions of linked accounts were merged into the account's own, so
an inflow of one netted off a simultaneous outflow of another (offering
more room than was left), and withdrawals were determined as if the
linked accounts' money were in the account.
---
 forecaster/accounts/linked_limit.py | 190 ++++++++++++++++------------
 1 file changed, 112 insertions(+), 78 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index e5b9b0a..19ac2bc 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -1,9 +1,7 @@
 """ A module providing the LinkedLimitAccount class. """
 
-from copy import copy
 from forecaster.accounts.base import Account
 from forecaster.accounts.link import AccountLink
-from forecaster.utility import add_transactions
 
 class LinkedLimitAccount(Account):
     """ An account with inflow/outflow limits linked to other accounts.
@@ -195,16 +193,8 @@ class LinkedLimitAccount(Account):
             link.data = limit
         return link
 
-    def _merge_transactions(self, transactions, group_transactions, link):
-        """ Merges `group_transactions` and `transactions`.
-
-        Only linked accounts have their transactions in
-        `group_transactions` added to `transactions`. Any keys in
-        `group_transactions` which are not linked (per `link`) are
-        ignored.
-
-        If `transactions` is provided, any transactions for this account
-        in `group_transactions` are ignored.
+    def _own_transactions(self, transactions, group_transactions):
+        """ Gets the hypothetical transactions for this account.
 
         Args:
             transactions (Union[dict[Number, Money], NoneType]): A
@@ -213,52 +203,73 @@ class LinkedLimitAccount(Account):
             group_transactions
                 (Union[dict[Account, dict[Number, Money]], NoneType]):
                 A mapping of `Account` keys to `transactions`-like
-                values. Keys not linked (according to `link`) are
-                ignored.
+                values. Used only if `transactions` is `None`.
+
+        Returns:
+            Union[dict[Number, Money], NoneType]: `transactions`, if
+            provided; otherwise this account's transactions in
+            `group_transactions`, if provided; otherwise `None`.
+        """
+        if transactions is None and group_transactions is not None:
+            return group_transactions.get(self)
+        return transactions
+
+    def _linked_flows(self, link, group_transactions, flow):
+        """ Sums the flows of the other accounts linked to this one.
+
+        This includes flows already recorded against each account and
+        any additional ones given by `group_transactions`. Accounts that
+        are not linked (according to `link`) are ignored.
+
+        Args:
             link (AccountLink): An object defining a collection of
-                linked accounts.
+                linked accounts. May be `None`.
+            group_transactions
+                (Union[dict[Account, dict[Number, Money]], NoneType]):
+                A mapping of `Account` keys to `transactions`-like
+                values.
+            flow (str): `"inflows"` or `"outflows"`.
 
         Returns:
-            dict[Number, Money]: A time-series of transactions formed
-            by merging `transactions` (if provided) with the
-            transactions mapped by any accounts of `group_transactions`
-            (if provided) which are linked to this account.
+            Money: The total inflows or outflows.
         """
-        # For convenience, use an empty iterable rather than `None`:
         if group_transactions is None:
-            group_transactions = set()
-
-        # We want to return `transactions`, but we don't want to mutate
-        # any of the inputs, so copy it first:
-        if transactions is not None:
-            transactions = copy(transactions)
-        elif self in group_transactions:
-            # If `transactions` isn't given, but this account is
-            # represented in `group_transactions`, use that:
-            transactions = copy(group_transactions[self])
-        else:
-            # Otherwise, just start with a empty dict to fill later:
-            transactions = {}
-
-        # If this account isn't linked (for this type of inflow/outflow,
-        # anyways), we're done:
-        if link is None:
-            return transactions
-
-        # Otherwise, merge the transactions for each other linked
-        # account in the group (note that this account is handled above)
-        group = link.group - {self}
-        for account in group:
-            # Add the transactions already recorded against the account:
-            add_transactions(transactions, account.transactions)
-            # And add any additional transactions, if present in
-            # `group_transactions`:
-            if account in group_transactions:
-                add_transactions(transactions, group_transactions[account])
-        return transactions
+            group_transactions = {}
+        result = self.precision_convert(0) # Money value
+        if link is not None:
+            for account in link.group - {self}:
+                result += getattr(account, flow)(
+                    group_transactions.get(account))
+        return result
+
+    def _limit_inflows(
+            self, limit, link, transaction_limit, transactions,
+            group_transactions):
+        """ Reduces `transaction_limit` to what's left of a group limit. """
+        remaining = max(
+            limit - self.inflows(transactions)
+            - self._linked_flows(link, group_transactions, 'inflows'),
+            self.precision_convert(0)) # Money value
+        if transaction_limit is not None:
+            return min(transaction_limit, remaining)
+        return remaining
+
+    def _limit_outflows(
+            self, limit, link, transaction_limit, transactions,
+            group_transactions):
+        """ Reduces `transaction_limit` to what's left of a group limit. """
+        # (Recall that outflows are negative, so we use max, not min)
+        remaining = min(
+            limit - self.outflows(transactions)
+            - self._linked_flows(link, group_transactions, 'outflows'),
+            self.precision_convert(0)) # Money value
+        if transaction_limit is not None:
+            return max(transaction_limit, remaining)
+        return remaining
 
     def max_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -272,8 +283,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a max
-                inflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                inflow limit linked to this one will count toward that
+                limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -282,14 +293,20 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_inflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # The limit is shared, so flows to/from linked accounts count:
+        transaction_limit = self._limit_inflows(
+            self.max_inflow_limit, self.max_inflow_link, transaction_limit,
+            transactions, group_transactions)
         return super().max_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions,
+            **kwargs)
 
     def max_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -303,8 +320,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a max
-                outflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                outflow limit linked to this one will count toward that
+                limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -313,14 +330,20 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_outflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # The limit is shared, so flows to/from linked accounts count:
+        transaction_limit = self._limit_outflows(
+            self.max_outflow_limit, self.max_outflow_link, transaction_limit,
+            transactions, group_transactions)
         return super().max_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions,
+            **kwargs)
 
     def min_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -334,8 +357,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a min
-                inflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                inflow limit linked to this one will count toward that
+                limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -344,14 +367,20 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_inflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # The limit is shared, so flows to/from linked accounts count:
+        transaction_limit = self._limit_inflows(
+            self.min_inflow_limit, self.min_inflow_link, transaction_limit,
+            transactions, group_transactions)
         return super().min_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions,
+            **kwargs)
 
     def min_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -365,8 +394,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a min
-                outflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                outflow limit linked to this one will count toward that
+                limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -375,8 +404,13 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_outflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # The limit is shared, so flows to/from linked accounts count:
+        transaction_limit = self._limit_outflows(
+            self.min_outflow_limit, self.min_outflow_link, transaction_limit,
+            transactions, group_transactions)
         return super().min_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions,
+            **kwargs)
-- 
2.43.0


From a74ba04079cd643d93f342693efd369bacf6fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 08/80] fix: Account.time_to_balance handles zero balances and
 past times

It raised ZeroDivisionError or ValueError when the balance was 0 or its
sign differed from the target's (e.g. when moving part of an account's
later inflow), and returned times before the requested one.
---
 forecaster/accounts/base.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index dd5ce05..0b1b011 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -949,9 +949,20 @@ class Account(TaxSource):
 
         # Determine when we'll reach the desired amount, assuming
         # no further transactions:
-        time = when + time_to_value(
-            self.rate, balance, value, nper=self.nper,
-            high_precision=self.high_precision)
+        never = self.precision_convert(float('inf'))
+        if balance == value:
+            time = when
+        elif balance * value <= 0:
+            # Growth won't change the sign of a balance (or change a
+            # balance of 0, or reach 0):
+            time = never
+        else:
+            time = when + time_to_value(
+                self.rate, balance, value, nper=self.nper,
+                high_precision=self.high_precision)
+            if time < when:
+                # That would have been in the past.
+                time = never
 
         # Now look ahead to the next transaction and, if it happens
         # before `time`, recurse onto that transaction's timing:
-- 
2.43.0


From 5877ff0013c2ba5d32472a957cae65418b2c35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 09/80] fix: a timing that offsets itself falls back on the
 account's default timing

---
 forecaster/accounts/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 0b1b011..acf011b 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -533,7 +533,10 @@ class Account(TaxSource):
         change = balance - ref_balance
 
         # Clean inputs:
-        if timing is None or not timing:
+        if timing is not None and not isinstance(timing, Timing):
+            # Convert timing from str or dict if appropriate:
+            timing = Timing(timing, high_precision=self.high_precision)
+        if not timing:
             # Use default timing if none was explicitly provided.
             # NOTE: Consider whether we should instead use whatever
             # timing is naturally suggested by the timings of the
@@ -548,9 +551,6 @@ class Account(TaxSource):
             # A side-effect is that we might move `default_timing` logic
             # back to the classes that need it (i.e. Debt, Person).
             timing = self.default_timing
-        elif not isinstance(timing, Timing):
-            # Convert timing from str or dict if appropriate:
-            timing = Timing(timing, high_precision=self.high_precision)
         # Weights aren't guaranteed to sum to 1, so normalize them so
         # they do. This will help later.
         # (Also convert to Decimal to avoid Decimal/float mismatch.)
-- 
2.43.0


From 185643e2d65348702820633ab1ef80ebcf5bfb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 10/80] fix: Scenario.inflation_adjustments compounds from the
 base year

---
 forecaster/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/scenario.py b/forecaster/scenario.py
index 1b77f8c..5549955 100644
--- a/forecaster/scenario.py
+++ b/forecaster/scenario.py
@@ -202,7 +202,7 @@ class Scenario(object):
             (or, for years prior to `base_year`, it is the present value
             of $1 in base_year)
         """
-        return {year: self.accumulation_function(year, base_year)
+        return {year: self.accumulation_function(base_year, year)
                 for year in self}
 
     @property
-- 
2.43.0


From 2c4cc34953839e8513ecedab07af144f1c23cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 11/80] fix: rebalancing an all-equity allocation keeps the
 shares summing to one

---
 forecaster/strategy/allocation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index a4b2500..dc836ed 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -234,7 +234,13 @@ class AllocationStrategy(Strategy):
         """
         if allocation.stocks > self.max_equity:
             # Move the excess weighting of equity into bonds and other
-            # proportionately to their current values:
+            # proportionately to their current values (or into bonds, if
+            # there's nothing to be proportionate to):
+            if allocation.bonds + allocation.other == 0:
+                return AssetAllocation(
+                    self.max_equity,
+                    allocation.bonds + allocation.stocks - self.max_equity,
+                    allocation.other)
             bonds = allocation.bonds + (
                 (allocation.stocks - self.max_equity)
                 * allocation.bonds / (allocation.bonds + allocation.other)
@@ -252,7 +258,7 @@ class AllocationStrategy(Strategy):
                 * allocation.bonds / (allocation.bonds + allocation.other)
             )
             other = allocation.other - (
-                (self.max_equity - allocation.stocks)
+                (self.min_equity - allocation.stocks)
                 * allocation.other / (allocation.bonds + allocation.other)
             )
             allocation = AssetAllocation(self.min_equity, bonds, other)
-- 
2.43.0


From d604843e88f745d53e0f8a1a302db86815921f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 12/80] fix: Tax.accum indexes thresholds rather than rates

---
 forecaster/tax.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 52b744e..a0f600b 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -216,9 +216,7 @@ class Tax(HighPrecisionOptional):
         # add_brackets() does this for us.
         if year not in self._accum:
             # Get the inflation-adjusted tax brackets for this year:
-            brackets = extend_inflation_adjusted(
-                self._tax_brackets, self.inflation_adjust, year)
-            self.add_brackets(brackets, year)
+            self.tax_brackets(year)
         if bracket is None:
             return self._accum[year]
         return self._accum[year][bracket]
-- 
2.43.0


From a177e05f28c3a54fc7bf8c8a70195ba1f5a46ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 13/80] fix: Tax.tax_person counts each deduction and credit
 once

---
 forecaster/tax.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index a0f600b..5d3339e 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -401,14 +401,10 @@ class Tax(HighPrecisionOptional):
             float: The tax liability of the person.
         """
         taxable_income = person.taxable_income_history[year]
-        deduction = (
-            person.tax_deduction_history[year]
-            + self.deduction(person, year)
-            + deduction)
-        credit = (
-            person.tax_credit_history[year]
-            + self.credit(person, year)
-            + credit)
+        # `self.deduction` and `self.credit` include the person's own
+        # `tax_deduction` and `tax_credit`.
+        deduction = self.deduction(person, year) + deduction
+        credit = self.credit(person, year) + credit
         return self.tax_money(taxable_income, year, deduction, credit)
 
     def tax_people(self, people, year, deduction=None, credit=None):
-- 
2.43.0


From 11dea862915264332a47c0e8474d24f0b9888565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 14/80] fix: Tax accepts any iterable of people

---
 forecaster/tax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 5d3339e..7f0a1b0 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -430,6 +430,9 @@ class Tax(HighPrecisionOptional):
         if credit is None:
             credit = {}
 
+        # Any iterable is allowed, but we need set operations below:
+        people = set(people)
+
         # Base case: If {} is passed, return $0.
         if not people:
             return self.precision_convert(0)
-- 
2.43.0


From 7194550923f5237b184f877386126778e4361151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 15/80] fix: TaxMulti combines misaligned brackets of its
 jurisdictions

---
 forecaster/tax.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 7f0a1b0..95ae656 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -665,32 +665,35 @@ class TaxMulti(object):
 
     def tax_brackets(self, year, bracket=None):
         """ Combined tax brackets for year. """
-        # If `bracket` is provided, we return a scalar:
-        if bracket is not None:
-            return sum(
-                tax.tax_brackets(year=year, bracket=bracket)
-                for tax in self.jurisdictions)
-        # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
-        brackets = (tax.tax_brackets(year=year) for tax in self.jurisdictions)
+        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
         bracket_keys = set.union(*(set(bracket) for bracket in brackets))
         combined_brackets = {}
         # Sum up the rate for each bracket (since brackets might not
         # align, find the highest-threshold bracket for each
-        # jurisdiction without exceeding `key`)
+        # jurisdiction without exceeding `key`, if it has one)
         for key in sorted(bracket_keys):
             combined_brackets[key] = sum(
                 bracket[
                     max(inner_key for inner_key in bracket if inner_key <= key)]
-                for bracket in brackets)
+                for bracket in brackets if min(bracket) <= key)
+        if bracket is not None:
+            return combined_brackets[bracket]
         return combined_brackets
 
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
-        return sum(
-            tax.accum(year=year, bracket=bracket)
-            for tax in self.jurisdictions)
+        brackets = self.tax_brackets(year)
+        accum, total, prev = {}, 0, None
+        for key in sorted(brackets):
+            if prev is not None:
+                total = total + (key - prev) * brackets[prev]
+            accum[key] = total
+            prev = key
+        if bracket is not None:
+            return accum[bracket]
+        return accum
 
     def personal_deduction(self, year):
         """ Personal deduction for `year`. """
-- 
2.43.0


From 6628b03ee1769ab5f39b27ba928de60c9c60fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 16/80] fix: TaxMulti.deduction returns the first
 jurisdiction's deduction

---
 forecaster/tax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 95ae656..43314f7 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -701,7 +701,7 @@ class TaxMulti(object):
 
     def deduction(self, person, year):
         """ The deductions the person is eligible for. """
-        return self.jurisdictions[0].deductions(
+        return self.jurisdictions[0].deduction(
             person=person, year=year)
 
     def credit(self, person, year, deduction=None):
-- 
2.43.0


From b96ccad5316b7128315c938d70e25fe2edf5f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 17/80] fix: TaxMulti.tax_money and tax_person work without
 deductions or credits

---
 forecaster/tax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 43314f7..b886776 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -733,8 +733,8 @@ class TaxMulti(object):
             self, taxable_income, year, deductions=None, credits_=None):
         """ Returns taxes owing on a given amount of taxable income. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_money(
@@ -746,8 +746,8 @@ class TaxMulti(object):
             self, person, year, deductions=None, credits_=None):
         """ Returns tax treatment for an individual person. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_person(
-- 
2.43.0


From 6b8c28558d729e17e48bd76d21462a376b7ba3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 18/80] fix: TaxCanada leaves the caller's deductions and
 credits alone

---
 forecaster/canada/tax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index b8d41e7..cf11320 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -224,11 +224,11 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         # by the superclass), or they can pass in `federal_*` and/or
         # `provincial_*` scalars which we'll wrap up appropriately.
         if "deductions" in kwargs:
-            deductions = kwargs["deductions"]
+            deductions = dict(kwargs["deductions"] or {})
         else:
             deductions = {}
         if "credits_" in kwargs:
-            credits_ = kwargs["credits_"]
+            credits_ = dict(kwargs["credits_"] or {})
         else:
             credits_ = {}
 
-- 
2.43.0


From 2ba80c577cce6367fedcb9c03da2e8a395ce84e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 19/80] fix: the spousal tax credit never exceeds the spousal
 amount

---
 forecaster/canada/tax.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index cf11320..6ca830a 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -141,9 +141,10 @@ class TaxCanadaJurisdiction(Tax):
 
         # The credit is determined by reducing the spousal amount
         # by the spouse's (net) income, but in any event it's not
-        # negative.
+        # negative (nor, where deductions exceed the spouse's income,
+        # is it more than the spousal amount).
         credit = max(
-            max_spousal_amount - spouse_net_income,
+            max_spousal_amount - max(spouse_net_income, 0),
             0) # Money value
 
         return credit
-- 
2.43.0


From d75f80836bc7f1b7cd7b71a838bcab1f4fc69113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 20/80] fix: Canadian credits are based on the assessed year's
 figures

---
 forecaster/canada/tax.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 6ca830a..8885cf9 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -74,8 +74,10 @@ class TaxCanadaJurisdiction(Tax):
             Money: The amount of the credit claimable by person in year.
         """
         pension_income = abs(sum(
-            account.outflows() for account in person.accounts
-            if isinstance(account, RRSP)))
+            value for account in person.accounts
+            if isinstance(account, RRSP)
+            for value in account.transactions_history[year].values()
+            if value < 0))
             # NOTE: Other qualified pension income sources can be
             # added here
         # Each jurisdiction has a maximum claimable amount for the
@@ -123,14 +125,16 @@ class TaxCanadaJurisdiction(Tax):
         # This would help to avoid calling self.deductions many times.
         spouse = person.spouse
         spouse_net_income = (
-            spouse.taxable_income - self.deduction(spouse, year))
+            spouse.taxable_income_history[year]
+            - self.deduction(spouse, year))
 
         # Figure out whether to assign the credit to this person or
         # their spouse based on who has more income:
 
         # If this is the lower-earner, use their spouse instead:
         person_net_income = (
-            person.taxable_income - self.deduction(person, year))
+            person.taxable_income_history[year]
+            - self.deduction(person, year))
         if person_net_income < spouse_net_income:
             return 0 # Money value
         # If their incomes are the same, use memory location to
-- 
2.43.0


From 5b36a26d8531b10e63720ef6c3d62f52d25c33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 21/80] fix: RRSP withholding excludes the minimum RRIF
 withdrawal

---
 forecaster/canada/accounts/rrsp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index b1353a9..cf2d5ee 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -146,7 +146,9 @@ class RRSP(RegisteredAccount):
         else:
             # Only withdrawals in excess of the minimum RRIF withdrawal
             # are hit by the withholding tax.
-            taxable_income = self.taxable_income - self.min_outflow_limit
+            taxable_income = max(
+                self.taxable_income - self.minimum_distribution(),
+                self.precision_convert(0)) # Money value
 
         year = nearest_year(
             self.constants.RRSP_WITHHOLDING_TAX_RATE,
-- 
2.43.0


From 401c073d9b534b63c9a7f5536b606c1e87a5d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 22/80] fix: minimum RRIF withdrawals depend on the owner's
 age, like the conversion

---
 forecaster/canada/accounts/rrsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index cf2d5ee..13495d0 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -244,7 +244,7 @@ class RRSP(RegisteredAccount):
         # Minimum withdrawals are required the year after converting to
         # an RRIF. How it is calculated depends on the person's age.
         if self.rrif_conversion_year < self.this_year:
-            age = self.contributor.age(self.this_year)
+            age = self.owner.age(self.this_year)
             if age in rrif_withdrawal_min:
                 return (
                     self.precision_convert(rrif_withdrawal_min[age])
-- 
2.43.0


From 1bfdc1325424a3e92d6db2a3120c8c44508dc933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 23/80] fix: contribution room accounts for flows of every
 account of the plan (RRSP)

---
 forecaster/canada/accounts/rrsp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index 13495d0..c3be60e 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -216,7 +216,9 @@ class RRSP(RegisteredAccount):
                 self.inflation_adjust,
                 year + 1)
             # Don't forget to add in any rollovers:
-            rollover = self.contribution_room - self.inflows()
+            # (room is shared, so consider all of the linked accounts)
+            rollover = self.contribution_room - sum(
+                account.inflows() for account in self.max_inflow_link.group)
             return min(
                 accrual,
                 max_accrual # Money value
-- 
2.43.0


From 3ecc6be50988834b84b6d7d604a2952cf59cc9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 24/80] fix: contribution room accounts for flows of every
 account of the plan (TFSA)

---
 forecaster/canada/accounts/tfsa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 4fb2cbb..69e01da 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -125,7 +125,10 @@ class TFSA(RegisteredAccount):
         contribution_room = self._contribution_room_accrual(self.this_year + 1)
         # On top of this year's accrual, roll over unused contribution
         # room, plus any withdrawals (less contributions) from last year
-        rollover = self.contribution_room - (self.outflows() + self.inflows())
+        # (room is shared, so consider all of the linked accounts)
+        rollover = self.contribution_room - sum(
+            account.outflows() + account.inflows()
+            for account in self.max_inflow_link.group)
         return contribution_room + rollover
 
     @recorded_property
-- 
2.43.0


From 3660f31cdb34be6ece7c12f222be514877647b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 25/80] fix: TFSA room accrues from the year the contributor
 becomes eligible

---
 forecaster/canada/accounts/tfsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 69e01da..314d0cd 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -102,8 +102,8 @@ class TFSA(RegisteredAccount):
 
         This excludes any rollovers - it's just the statutory accrual.
         """
-        # No accrual if the owner is too young to qualify:
-        if self.owner.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        # No accrual if the contributor is too young to qualify:
+        if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0


From fcc545d6c594787411cdfe35097dd5b6b5daf44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 26/80] fix: TFSA infers its initial room when only future room
 is given

---
 forecaster/canada/accounts/tfsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 314d0cd..a3232bf 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -73,7 +73,9 @@ class TFSA(RegisteredAccount):
         # before this initial_year (e.g. due to `input`), in which
         # case we should extrapolate from that year onwards:
         # (See above note re: `_contribution_room_history`)
-        if self._contribution_room_history:
+        if any(
+                year < self.initial_year
+                for year in self._contribution_room_history):
             # Get the last year for which there is data and the
             # contribution room recorded for that year:
             last_year = max(
-- 
2.43.0


From 945e3ec94f6f0fcf15372463e9008687b64ff037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 27/80] fix: contribution room given by the user applies to the
 whole plan

---
 forecaster/canada/accounts/registered_account.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 99e6618..0981b7a 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -136,9 +136,13 @@ class RegisteredAccount(LinkedLimitAccount):
             # (e.g. via an `input` dict), use that:
             # pylint: disable=no-member
             # Pylint gets confused by attributes added by metaclass
+            # (It may have been provided to any of the linked accounts)
             next_year = self.this_year + 1
-            if next_year in self.contribution_room_history:
-                contribution_room = self.contribution_room_history[next_year]
+            for account in {self} | self.max_inflow_link.group:
+                if next_year in account.contribution_room_history:
+                    contribution_room = account.contribution_room_history[
+                        next_year]
+                    break
             else:
                 # Otherwise, generate it using the magic method:
                 contribution_room = self.next_contribution_room()
@@ -159,8 +163,10 @@ class RegisteredAccount(LinkedLimitAccount):
 
         # Now assign the contribution room we determined earlier to
         # the linked data store:
+        # (Assigning to `contribution_room` has no effect on the linked
+        # accounts if this account's room was provided by the user.)
         if first_account:
-            self.contribution_room = contribution_room
+            self.max_inflow_limit = contribution_room
 
     def next_contribution_room(self):
         """ Returns the contribution room for next year.
-- 
2.43.0


From 6386c7f547fa288b97f544b86d5550fc9f5a7075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 28/80] fix: Person.age is right for birthdays and dates of 29
 February

Ages on 29 February raised ValueError unless the year of birth was a leap
year, and somebody born on 29 February was a year too young in every year
without one.
---
 forecaster/person.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 0903948..8aabfb9 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -381,8 +381,9 @@ class Person(TaxSource):
             date = parse(str(date), default=self.birth_date)
 
         # Remember to check whether the month/day are earlier in `date`
+        # (relativedelta moves birthdays on February 29 as necessary)
         age = date.year - self.birth_date.year
-        if date.replace(self.birth_date.year) < self.birth_date:
+        if date < self.birth_date + relativedelta(years=age):
             age -= 1
 
         # We allow age to be negative, if that's what the caller wants.
-- 
2.43.0


From 35c48106c68bc25fccca0b20dfb73723c2819127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 29/80] fix: a new spouse's former spouse is unlinked

Setting `spouse` left the new spouse's former spouse pointing to them, and
a value of the wrong type left the current spouse unlinked on one side.
---
 forecaster/person.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 8aabfb9..7b1c3e5 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -282,6 +282,10 @@ class Person(TaxSource):
     @spouse.setter
     def spouse(self, val):
         """ Sets the Person's spouse. """
+        if val is not None and not isinstance(val, Person):
+            # Spouse must be a Person
+            raise TypeError('Person: spouse must be of type Person')
+
         # If this Person already has a spouse, unlink them:
         if hasattr(self, 'spouse') and self.spouse is not None:
             # Assign to _spouse to avoid recursing on this method.
@@ -292,12 +296,13 @@ class Person(TaxSource):
 
         # If we're adding a new spouse, make sure that it links back:
         if val is not None:
-            if not isinstance(val, Person):  # Spouse must be a Person
-                raise TypeError('Person: spouse must be of type Person')
             # Assign to _spouse to avoid recursing on this method.
             # pylint: disable=protected-access
             # spouse is a Person, so this isn't accessing a protected
             # member of a client class.
+            # (The new spouse's former spouse, if any, is now single)
+            if val.spouse is not None:
+                val.spouse._spouse = None
             val._spouse = self  # Use _spouse to avoid recursion
 
         # Update the spouse attr whether or not the new value is None
-- 
2.43.0


From 64bb08d140ca0b6901406d99e62479a4bfcddac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 30/80] fix: raise_rate_callable = None reverts to a raise rate
 of 0

It was converted to a function that returns None.
---
 forecaster/person.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 7b1c3e5..ab4c371 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -254,7 +254,7 @@ class Person(TaxSource):
         # Treat setting the method to None as reverting to the default
         # rate parameter, which is Money(0).
         if val is None:
-            self.raise_rate_callable = 0
+            val = 0
         # Is raise_rate isn't callable, convert it to a suitable method:
         if not callable(val):  # Make callable if dict or scalar
             if isinstance(val, dict):
-- 
2.43.0


From f9643b0266faaec3c6aaa666150dd4e9c71dcdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 31/80] fix: refusing an owner leaves the account with its
 current owner

The account was removed from its owner's accounts before the type of the
new owner was checked.
---
 forecaster/accounts/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index acf011b..87de16c 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -182,15 +182,16 @@ class Account(TaxSource):
     @owner.setter
     def owner(self, val):
         """ Sets the account's owner. """
+        # Check the new owner before making any changes:
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Account: owner must be of type Person.')
+
         # Unregister this account from any former owner:
         if self.owner is not None:
             self.owner.accounts.remove(self)
 
-        # For new owners, do basic type-checks and then
-        # bind the account to the owner:
+        # Bind the account to the new owner, if any:
         if val is not None:
-            if not isinstance(val, Person):
-                raise TypeError('Account: owner must be of type Person.')
             # Register with new owner:
             val.accounts.add(self)
 
-- 
2.43.0


From fe2d35e9cc100b1958e8e3bffd1ad90cfac070fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 32/80] fix: deleting a ValueReader attribute falls back to its
 default

---
 forecaster/value_reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1096c03..670ad43 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -58,8 +58,6 @@ class ValueReaderAttribute(object):
     def __delete__(self, obj):
         # Remove the value from the `values` dict:
         del obj.values[self.name]
-        # Also remove this descriptor:
-        del obj.__dict__[self.name]
 
 class HighPrecisionJSONEncoder(json.JSONEncoder):
     """ Extends JSONEncoder to support high-precision numeric types.
-- 
2.43.0


From 3c339573e8be89383d186d08be8fcada41af7234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 33/80] fix: ValueReader reads str-encoded numbers without loss

---
 forecaster/value_reader.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 670ad43..073a507 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -338,13 +338,16 @@ class ValueReader(HighPrecisionOptional):
         if float_val % 1 == 0:
             # `float_val % 1` is `NaN` for infinite or NaN values,
             # and is a non-zero number for any floating-point value.
-            # Thus, if this test passes, we have an integer value.
-            return int(float_val)
-        # Use high-precision numeric type if supported:
-        if self.high_precision is not None:
-            return self.high_precision(vals)
-        # Otherwise, use float:
-        return float_val
+            # Thus, if this test passes, we have an integer value
+            # (unless it's been rounded; avoid conversion via float)
+            try:
+                return int(vals) #@IgnoreException
+            except ValueError:
+                num_val = self._parse_float(vals)
+                int_val = int(num_val)
+                return int_val if int_val == num_val else num_val
+        # Use high-precision numeric type if supported (or else float):
+        return self._parse_float(vals)
 
     def write(self, filename, vals=None):
         """ Writes values to a UTF-8 encoded JSON file.
-- 
2.43.0


From 6acd64940068c8a72b7d391e86b131ffa79c2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 34/80] fix: ValueReader writes high-precision and mixed keys

---
 forecaster/value_reader.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 073a507..da4067f 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -349,6 +349,35 @@ class ValueReader(HighPrecisionOptional):
         # Use high-precision numeric type if supported (or else float):
         return self._parse_float(vals)
 
+    def _prepare_keys(self, vals):
+        """ Sorts and (for high-precision keys) serializes dict keys.
+
+        Numeric keys come first, in numerical order. (Sorting makes it
+        easier for humans to read.)
+        """
+        if isinstance(vals, (list, tuple)):
+            return [self._prepare_keys(val) for val in vals]
+        if not isinstance(vals, dict):
+            return vals
+        try:
+            keys = sorted(vals, key=lambda key: (isinstance(key, str), key))
+        except TypeError:
+            # Some keys (e.g. `None`) can't be compared to others:
+            keys = sorted(vals, key=str)
+        return {
+            self._prepare_key(key): self._prepare_keys(vals[key])
+            for key in keys}
+
+    def _prepare_key(self, key):
+        """ Serializes `key` if it's of a high-precision type. """
+        if (
+                self.high_precision is not None and
+                isinstance(key, type(self.high_precision(0)))):
+            if self.high_precision_serialize is not None:
+                return self.high_precision_serialize(key)
+            return str(key)
+        return key
+
     def write(self, filename, vals=None):
         """ Writes values to a UTF-8 encoded JSON file.
 
@@ -368,8 +397,7 @@ class ValueReader(HighPrecisionOptional):
         encoder_args = {
             'ensure_ascii': True, # Escape non-ASCII characters
             'allow_nan': True, # Required to support float('inf')
-            'indent': 2, # Pretty-print with indenting,
-            'sort_keys': True # Sort to make it easier for humans to read
+            'indent': 2 # Pretty-print with indenting
         }
 
         # Use the custom encoder provided by client code, if any:
@@ -382,6 +410,10 @@ class ValueReader(HighPrecisionOptional):
             encoder_args['high_precision_serialize'] = (
                 self.high_precision_serialize)
 
+        # JSON supports only some types of keys (and doesn't sort mixed
+        # types), so prepare the keys of all dicts in advance:
+        vals = self._prepare_keys(vals)
+
         # Write the serialized values to file:
         with open(filename, "w", encoding="utf-8") as file:
             json.dump(vals, file, cls=cls, **encoder_args)
-- 
2.43.0


From 239c4e3912380984555e66fd1513add33c7ff2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 35/80] fix: ValueReader.write accepts a ValueReader, as
 documented

---
 forecaster/value_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index da4067f..f844b04 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -390,6 +390,8 @@ class ValueReader(HighPrecisionOptional):
         # If no values are provided, use this object's `values`:
         if vals is None:
             vals = self.values
+        elif isinstance(vals, ValueReader):
+            vals = vals.values
 
         filename = resolve_path(filename)
 
-- 
2.43.0


From 92c3f3cbfdb0750ae7cc583560e56eb61f965ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 36/80] fix: keep the children of a copied TransactionNode

---
 forecaster/strategy/transaction/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index a190bf9..0a95fa6 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -54,6 +54,7 @@ class TransactionNode:
             # Copy initialization:
             self.source = source.source
             self.limits = source.limits
+            self.children = source.children
             return
 
         # Hold on to the original list/dict/whatever.
-- 
2.43.0


From 15f53f48131aaba0aaa3bfa0128c8d7ed0bcd60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 37/80] fix: accept LimitTuples of methods in
 TransactionTraversal

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 46ae4e2..d3b8048 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -186,11 +186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         if transaction_methods is None:
             self.transaction_methods = transaction_default_methods()
         else:
-            self.transaction_methods = LimitTuple(transaction_methods)
+            self.transaction_methods = LimitTuple(*transaction_methods)
         if group_methods is None:
             self.group_methods = group_default_methods()
         else:
-            self.group_methods = LimitTuple(group_methods)
+            self.group_methods = LimitTuple(*group_methods)
         # Convert `precision` to high-precision if it's the default
         # argument and a conversion method has been passed:
         if precision == EPSILON and self.high_precision is not None:
-- 
2.43.0


From 8f286ca8b4fdb4e75eaf123fa4dc2cad6415c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 38/80] fix: order every member of an ordered node after the
 ones before it

---
 forecaster/strategy/transaction/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index d3b8048..8836ef4 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1059,7 +1059,7 @@ class TransactionTraversal(HighPrecisionOptional):
             # Ensure that assigning flows to the next child in sequence
             # has a penalty larger than any path through the current
             # child's successors:
-            weight = max(weight, _sum_weight(self.graph, child)) + 1
+            weight += _sum_weight(self.graph, child) + 1
 
     def _add_node_leaf(
             self, node, child, *, capacity=None, **kwargs):
-- 
2.43.0


From 68b225d46bcee26e4a95d31a922c901761e242b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 39/80] fix: give members of a weighted node money that
 over-filled members leave

---
 forecaster/strategy/transaction/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 8836ef4..8cbcff2 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -780,11 +780,9 @@ class TransactionTraversal(HighPrecisionOptional):
             recurse_children = {
                 child: weight for child, weight in children.items()
                 if totals[child] > 0}
-            # Capacity should be restored to its original value...
+            # Capacity should be restored to its original value: none of
+            # it goes to the over-allocated children.
             capacity -= flows
-            # ... and further reduced by the amount of excess flows
-            # previously allocated to some children:
-            capacity += sum(total for total in totals.values() if total < 0)
             self._add_weighted_children(
                 node, recurse_children, capacity, **kwargs)
             # As for the children that have been over-allocated flow,
-- 
2.43.0


From 86a1805d35216cc4a567eed5fb6eb11939be617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 40/80] fix: rebalance weighted members whose capacity only
 grew

---
 forecaster/strategy/transaction/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 988c9e2..daac97f 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -485,7 +485,8 @@ def _swap_saturated(
         if child in saturated:
             new_capacity = graph[outbound_node][child][CAPACITY_KEY]
             old_capacity = flows[outbound_node][child]
-            if new_capacity != old_capacity:
+            # (Having more capacity doesn't make a node a bottleneck)
+            if new_capacity < old_capacity:
                 saturated.remove(child)
                 non_saturated.add(child)
 
-- 
2.43.0


From 94b536447dbd853235fee5c8db40f5f6e56c0021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 41/80] fix: withdraw minimum outflows, and count them toward
 limits

---
 forecaster/strategy/transaction/base.py  | 14 +++++++++++---
 forecaster/strategy/transaction/graph.py |  5 ++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 8cbcff2..aa611ec 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -249,7 +249,13 @@ class TransactionTraversal(HighPrecisionOptional):
             max_limit = LIMIT_TUPLE_FIELDS.max_outflow
             # Limit min. outflows based on what's in the account, not
             # the shortfall we're trying to fill:
-            min_total = float('-inf')
+            # (`_traverse_priority` needs a finite total in order to
+            # divide it between children, so add up the min. outflows.)
+            min_total = sum(
+                sum(_get_transactions(
+                    account, min_limit, available,
+                    transaction_methods=self.transaction_methods).values())
+                for account in _get_accounts(self._priority_tree))
         else:  # No transactions since total ~= 0
             return {}
 
@@ -1158,7 +1164,8 @@ class TransactionTraversal(HighPrecisionOptional):
             transaction_limit = self.high_precision(transaction_limit)
         # Scale up based on the precision (as we do with all edge
         # capacities):
-        capacity = transaction_limit / self.precision
+        # (Outflows are negative, but capacities and memoized flows are not)
+        capacity = abs(transaction_limit / self.precision)
 
         # Most accounts add an edge straight to `sink`, but accounts
         # that have shared transaction limits have special treatment:
@@ -1178,7 +1185,8 @@ class TransactionTraversal(HighPrecisionOptional):
             node = group_node
         else:
             # Reduce capacity based on any memoized flows through `node`
-            capacity -= _flows_through(node, flows=self.memo)
+            capacity = max(
+                capacity - _flows_through(node, flows=self.memo), 0)
 
         # Send an edge from the node to the sink, if provided:
         if self.sink is not None:
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index daac97f..28f8769 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -149,7 +149,10 @@ def _add_edge(
 
         # Reduce capacity by any previously-allocated flows over this
         # edge:
-        capacity -= _flows_through(from_node, to_node, flows=memo)
+        # (Those flows might exceed the edge's capacity, but capacity
+        # can't be negative.)
+        capacity = max(
+            capacity - _flows_through(from_node, to_node, flows=memo), 0)
         # Only assign `capacity` as an edge value if it is finite.
         # (networkx doesn't deal well with float('inf'). The
         # "capacity" attr should be absent if capacity is unbounded.)
-- 
2.43.0


From 6a220f7b783ceba58f3175ca3de568222fabbf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 42/80] fix: apply node limits to minimum flows and to outflows

---
 forecaster/strategy/transaction/base.py | 33 +++++++++++++++----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index aa611ec..e7a9bda 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -602,22 +602,29 @@ class TransactionTraversal(HighPrecisionOptional):
             outbound_node = (node, "limit")
 
         # Figure out whether `node` has an applicable limit:
+        # (If a node has both min. and max. limits then minimum flows
+        # can't exceed either of them.)
         limit_value = None
-        if hasattr(node, "limits") and hasattr(node.limits, limit):
-            limit_value = getattr(node.limits, limit)
+        for field in (limit, limit.replace("min_", "max_")):
+            value = getattr(node.limits, field)
             # Convert from Money-like to float, if applicable:
-            if hasattr(limit_value, "amount"):
-                limit_value = limit_value.amount
-            if limit_value is not None:
+            if hasattr(value, "amount"):
+                value = value.amount
+            if value is not None:
                 # Scale up the limit value by `precision` to avoid
-                # rounding issues:
-                limit_value /= self.precision
-                # Reduce `limit_value` based on any memoized flows
-                # through `node`:
-                limit_value -= _flows_through(node, flows=self.memo)
-                # Use the lesser of `capacity` and `limit_value`;
-                # successors use this to determine their edge capacities
-                capacity = min(capacity, limit_value)
+                # rounding issues (and, as with other capacities, drop
+                # the sign of any outflow limits):
+                value = abs(value / self.precision)
+                # Reduce the limit based on any memoized flows through
+                # `node`:
+                value = max(value - _flows_through(node, flows=self.memo), 0)
+                # Use the strictest limit:
+                if limit_value is None or value < limit_value:
+                    limit_value = value
+        if limit_value is not None:
+            # Use the lesser of `capacity` and `limit_value`;
+            # successors use this to determine their edge capacities
+            capacity = min(capacity, limit_value)
 
         # Connect `node` and `outbound_node` via a directed edge:
         if limit_value is not None:
-- 
2.43.0


From 6b890b8297f91ff6b45f61bd7e244d775ba7d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 43/80] fix: allocate over trees with empty nodes or zero
 weights

---
 forecaster/strategy/transaction/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index e7a9bda..1ee53ba 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -470,6 +470,8 @@ class TransactionTraversal(HighPrecisionOptional):
 
         # Create an empty graph:
         self.graph = _get_empty_graph()
+        # (The sink won't be reached if `priority` has no accounts)
+        self.graph.add_node(self.sink)
         # We could use the root node of the tree as the graph's source
         # node, but it's convenient if each node can determine the
         # capacities of its outbound weights based on the capacities
@@ -715,8 +717,8 @@ class TransactionTraversal(HighPrecisionOptional):
             # `overflow_node`.
             # It should be preferable to shift flow between _any_
             # successor path before routing it through `overflow_node`.
-            weight = 1 + max(_sum_weight(
-                self.graph, child) for child in children)
+            weight = 1 + max((_sum_weight(
+                self.graph, child) for child in children), default=0)
             _add_edge(self.graph, node, overflow_node, weight=weight)
 
         # This deals with overflows, but not underflows - which are
@@ -764,6 +766,11 @@ class TransactionTraversal(HighPrecisionOptional):
         # Proportionality is easier to calculate with normalized weights
         # so determine that first:
         normalization = sum(children.values())
+        if normalization == 0:
+            # Children with no weight get something only if there's
+            # nowhere else for it to go; treat them equally in that case
+            children = {child: 1 for child in children}
+            normalization = len(children)
         # If we've previously assigned flows from `node` (or, rather,
         # its corresponding outbound node) to any of `children`, account
         # for that by increasing `capacity` here and decrementing that
-- 
2.43.0


From 79f4c84a2939bd346649abd9d5679ae51c605e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 44/80] fix: share a group limit with members that cannot use
 all of it

---
 forecaster/strategy/transaction/base.py | 29 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 1ee53ba..6d85fd5 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -25,7 +25,7 @@ from forecaster.strategy.transaction.util import (
     _convert_flows_to_transactions)
 from forecaster.strategy.transaction.node import TransactionNode
 from forecaster.strategy.transaction.graph import (
-    _get_empty_graph, _add_edge, _flows_through, _generate_flows,
+    CAPACITY_KEY, _get_empty_graph, _add_edge, _flows_through, _generate_flows,
     _inbound_capacity, _merge_flows, _outbound_capacity, _sum_weight,
     _get_outbound_node, _get_overflow_node, _classify_children_by_flows,
     _swap_saturated, _restrict_overflow, _unrestrict_overflow)
@@ -1186,14 +1186,27 @@ class TransactionTraversal(HighPrecisionOptional):
         group = _get_group(node, limit, group_methods=self.group_methods)
         if group is not None:
             group_node = frozenset(group)  # make hashable
-            # Reduce capacity based on any memoized flows through
-            # `group_node` (which accounts for all flows through all
-            # of the linked nodes of the group)
-            # This prevents inadvertent over-contribution/withdrawal:
-            capacity -= _flows_through(group_node, flows=self.memo)
+            # Reduce capacity based on any memoized flows through `node`:
             _add_edge(
-                self.graph, node, group_node,
-                capacity=capacity, limit=capacity)
+                self.graph, node, group_node, limit=capacity, capacity=max(
+                    capacity - _flows_through(node, flows=self.memo), 0))
+            # Reduce the group's capacity based on any memoized flows
+            # through any of the linked nodes of the group (even if they
+            # weren't linked when those flows were memoized).
+            # This prevents inadvertent over-contribution/withdrawal:
+            capacity = max(
+                capacity - sum(
+                    _flows_through(account, flows=self.memo)
+                    for account in group_node),
+                0)
+            # If other accounts of the group have been added already,
+            # don't restrict them merely because this account can't use
+            # as much of the group's capacity as they can:
+            if self.graph.has_edge(group_node, self.sink):
+                capacity = max(
+                    capacity,
+                    self.graph[group_node][self.sink].get(
+                        CAPACITY_KEY, float('inf')))
             # We're done with the original account node; all further
             # edges will be from the group node.
             node = group_node
-- 
2.43.0


From 74b2286e7f7e94a917dedc8dd097872e726c4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 45/80] fix: balance weighted nodes with several limited
 members

Members of a weighted node with four or more members could receive
shares that did not match their weights (overflow was divided between
arbitrary members, and a rounding error of one unit ended the
rebalancing). Divide the members into those that can and cannot receive
more flow instead of classifying them by where flow happened to go.
---
 forecaster/strategy/transaction/base.py  | 228 +++++++----------------
 forecaster/strategy/transaction/graph.py | 142 +++-----------
 2 files changed, 100 insertions(+), 270 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 6d85fd5..39a5dc2 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -28,7 +28,7 @@ from forecaster.strategy.transaction.graph import (
     CAPACITY_KEY, _get_empty_graph, _add_edge, _flows_through, _generate_flows,
     _inbound_capacity, _merge_flows, _outbound_capacity, _sum_weight,
     _get_outbound_node, _get_overflow_node, _classify_children_by_flows,
-    _swap_saturated, _restrict_overflow, _unrestrict_overflow)
+    _is_expandable)
 
 
 class TransactionTraversal(HighPrecisionOptional):
@@ -855,189 +855,105 @@ class TransactionTraversal(HighPrecisionOptional):
             node = weighted_nodes.get()
             self._balance_flows(node, **kwargs)
 
-    def _balance_flows(
-            self, node, children=None, rebalance_all=True, **kwargs):
-        """ Attempts to shift flow between children to match weights.
-
-        Based on the flows from `node` to `children`, we can identify 3
-        sets of child nodes.
-        (References to a child's "capacity" below refers to the
-        capacity of all zero-weight paths from `node` to the child.)
-
-        1. Underflow nodes: Flow to these nodes from `node` is less than
-            their capacity.
-        2. Overflow nodes: Flow to these nodes exceeds their capacity
-            (i.e. they receive flow over non-zero-weight paths).
-        3. Saturated nodes: All nodes that are not underflow or overflow
-            nodes. These have received exactly their capacity in flows.
-
-        There is no guarantee that overflow and underflow nodes are
-        weighted properly relative to each other, since there's no
-        mechanism to force flows through a set of identically-weighted
-        paths to adhere to a certain proportion of flows. This method
-        recurses onto each of those sets of children separately,
-        thereby attempting to reallocate capacity between them in a way
-        that respects weightings.
-
-        We know we can recurse on those sets of nodes separately because
-        overflow nodes only receive flow if they _must_, and underflow
-        nodes only fail to reach saturation if it's _impossible_ to do
-        so (so long as total flow through `node` is at least as large
-        as the capacity of the children - which this method enforces).
-
-        Saturated nodes are included when recursing onto both underflow
-        and overflow nodes. This is because it's possible for a
-        saturated node to share capacity with underflow or overflow
-        nodes. It might be appropriate to reallocate capacity from a
-        saturated node to an underflow node and/or to reallocate
-        capacity from an overflow node to a saturated node.
+    def _balance_flows(self, node, **kwargs):
+        """ Divides flow between children of `node` to match weights.
+
+        Some children might not be able to receive all of the flow that
+        `node`'s weights dictate (e.g. because of a limit). The excess
+        can be received by the other children via `node`'s overflow
+        node, but that flow isn't divided in any particular way.
+        This method reassigns the capacities of the edges to `children`
+        so that overflows aren't needed.
 
         Args:
             node (Hashable): The node whose children are being
                 rebalanced.
-            children (dict[Hashable, float]): The children to be
-                rebalanced, mapped to their relative weights. Optional.
-                If not provided, all children of `node` are rebalanced.
-            rebalance_all (bool): If `True`, this method will attempt to
-                reassign capacities if they don't match total flows.
-                It sets this to `False` on recursion to avoid infinite
-                recursion due to rounding error. Optional. Defaults to
-                `True`.
             **kwargs: Arguments to pass to lower-level methods. Must
                 include at least "timing" and "limit" keys.
         """
-        if children is None:
-            children = node.children
-
-        if not children:
-            # Nothing to process if there are no children. Done.
-            return
-
-        # Try to generate flows through the graph.
+        outbound_node = _get_outbound_node(node, self.outbound_nodes)
+        overflow_node = _get_overflow_node(
+            node, self.overflow_nodes, outbound_node=outbound_node)
+        # Calculate the actual flow through `node` (rather than its
+        # capacity, which may be over-provisioned):
         _, flows = _generate_flows(self.graph, self.source, self.sink)
-        # Divide nodes based on whether flows match their capacities:
-        underflow, overflow, saturated = _classify_children_by_flows(
-            self.graph, node, children, flows,
-            self.outbound_nodes, self.overflow_nodes)
-
-        # Terminate if all nodes are saturated. This means we found
-        # a perfect proportion of flows to satisfy the source node's
-        # weights:
-        if not underflow and not overflow:
-            return
-        # If only _one_ of those two is empty, then we have an imbalance
-        # in capacity; need to reassign capacities to match flows:
-        elif bool(underflow) != bool(overflow):
-            # `rebalance_all` ensures that we recurse here *at most
-            # once* for each instance of children. (Can have infinite
-            # recursion due to rounding errors; this avoids that.)
-            if rebalance_all:
-                # Force recalculation of 0-weight edges' capacity based
-                # on the actual sum of flows through this node:
-                self._balance_flows_recurse(
-                    node, children=children, flows=flows,
-                    rebalance_all=False, **kwargs)
-                # Don't proceed on, since the old `flows` is based on
-                # unbalanced capacities.
-                return
-            elif saturated:
-                # We can't move capacity out of `saturated`, so treat
-                # them as under/overflow (whichever is empty):
-                if not underflow:
-                    saturated, underflow = underflow, saturated
-                else:
-                    saturated, overflow = overflow, saturated
-            else:
-                # If there are no saturated nodes then we have only
-                # underflow/overflow. Not much that can be done there.
-                return
-
-        # We are guaranteed to have both underflow and overflow nodes.
-        # Recurse first onto all non-overflow nodes, to see if any
-        # capacity from saturated nodes can be shifted to underflow
-        # nodes in a way that better reflects their proportionate
-        # weights:
-        underflow_expanded = underflow.union(saturated)
+        capacity = sum(
+            flows[outbound_node][child] + flows[overflow_node][child]
+            for child in node.children)
         self._balance_flows_recurse(
-            node, children=underflow_expanded, flows=flows, **kwargs)
-
-        # Any saturated nodes that have changed capacity will
-        # necessarily have had their capacity reduced; shift those
-        # into `underflow`. This avoids recursing onto them in
-        # the non-overflow step.
-        _swap_saturated(
-            saturated, underflow, node, children, self.graph, flows,
-            outbound_nodes=self.outbound_nodes)
-
-        # Now do the same thing, but for non-underflow nodes.
-        overflow_expanded = overflow.union(saturated)
-        # NOTE: We use the same `flows` because only flows to
-        # _underflow_ nodes have changed in the previous step.
-        self._balance_flows_recurse(
-            node, children=overflow_expanded, flows=flows, **kwargs)
+            node, children=set(node.children), capacity=capacity, **kwargs)
 
-    def _balance_flows_recurse(
-            self, node, children=None, flows=None, **kwargs):
+    def _balance_flows_recurse(self, node, children, capacity, **kwargs):
         """ Helper method for `_balance_flows`.
 
-        Calls `_add_successors` on `children` to distribute capacity
-        between them to match the amount in `flows` and then recurses
-        onto `_balance_flows` to ensure that the new capacities of
-        `children` are distributed correctly.
+        Divides `capacity` between `children` according to their
+        weights. If some of the children can't receive their share then
+        `children` is divided in two:
+
+        1. Children that can't receive any more flow than they do now.
+            This includes any children that receive all of their share
+            by using capacity that's shared with a child that doesn't.
+        2. Children that can receive more flow.
+
+        The first group can't receive more flow in total, regardless of
+        how it's divided between them, and the rest has to be received
+        by the second group. So we can recurse onto each separately.
 
         Args:
             node (Hashable): The node whose children are being
                 rebalanced.
-            children (dict[Hashable, float]): The children to be
-                rebalanced, mapped to their relative weights. Optional.
-                If not provided, all children of `node` are rebalanced.
-            flows (dict[Hashable, dict[Hashable, int]]): Flows through
-                the graph, as `from_node: (to_node: flow)` triples.
+            children (set[Hashable]): The children to be rebalanced.
+            capacity (int): The total flow to divide between `children`.
             **kwargs: Arguments to pass to lower-level methods. Must
                 include at least "timing" and "limit" keys.
         """
-        # Process input:
-        if children is None:
-            children = node.children
         outbound_node = _get_outbound_node(node, self.outbound_nodes)
         overflow_node = _get_overflow_node(
             node, self.overflow_nodes, outbound_node=outbound_node)
 
-        if flows is not None:
-            # Calling code can provide `flows`, in which case edges to
-            # children should be re-allocated based on actual flows
-            # (rather than capacities, which may be under- or
-            # over-provisioned).
-            capacity = sum(flows[outbound_node][child] for child in children)
-            if overflow_node is not None:
-                capacity += sum(
-                    flows[overflow_node][child] for child in children)
-        else:
-            # Otherwise, simply use the 0-weight capacity to `children`:
-            capacity = _outbound_capacity(
-                self.graph, outbound_node, weight=0, children=children)
-
         # _add_successors expects `children` to have the appropriate
         # typing for this kind of node, so enforce that here:
-        children_subset = node.children_subset(children)
-        # Attempt to reallocate capacity among children based on the
-        # parent node's weights.
         self._add_successors(
-            node, capacity=capacity, children=children_subset,
+            node, capacity=capacity, children=node.children_subset(children),
             # (Don't mess with overflow nodes at this stage)
             add_overflow=False, **kwargs)
-        # If there are multiple children, recurse onto them to ensure
-        # that they are balanced relative to each other:
-        if len(children) > 1:
-            # Ensure that, if any changes in capacity cause additional
-            # flow to go through `overflow_node`, that such overflows
-            # are directed to `children` (which we know can accept it.)
-            _restrict_overflow(
-                self.graph, node, children, flows, self.overflow_nodes,
-                outbound_nodes=self.outbound_nodes)
-            self._balance_flows(node, children=children, **kwargs)
-            # Undo the foregoing mutation of edges from `overflow_node`:
-            _unrestrict_overflow(self.graph, node, self.overflow_nodes)
+
+        # Find out how much flow `children` can receive in the absence
+        # of overflows:
+        overflow_edge = dict(self.graph[outbound_node][overflow_node])
+        _add_edge(self.graph, outbound_node, overflow_node, capacity=0)
+        _, flows = _generate_flows(self.graph, self.source, self.sink)
+        self.graph[outbound_node][overflow_node].clear()
+        self.graph.add_edge(outbound_node, overflow_node, **overflow_edge)
+
+        underflow, _, _ = _classify_children_by_flows(
+            self.graph, node, node.children, flows,
+            self.outbound_nodes, self.overflow_nodes)
+        expandable = {
+            child for child in children if child not in underflow
+            and _is_expandable(self.graph, child, self.sink, flows)}
+        # Terminate if everyone can receive their share, or if there
+        # isn't anyone to receive the excess:
+        if not underflow or not expandable:
+            return
+
+        restricted = children - expandable
+        restricted_capacity = sum(
+            flows[outbound_node][child] for child in restricted)
+        # If children that aren't being rebalanced have lost flow, it's
+        # because it was received by the restricted children; undo that:
+        restricted_capacity -= sum(
+            self.graph[outbound_node][child][CAPACITY_KEY]
+            - flows[outbound_node][child]
+            for child in underflow.difference(children))
+        restricted_capacity = max(restricted_capacity, 0)
+        if restricted:
+            self._balance_flows_recurse(
+                node, children=restricted,
+                capacity=restricted_capacity, **kwargs)
+            self._balance_flows_recurse(
+                node, children=expandable,
+                capacity=capacity - restricted_capacity, **kwargs)
 
     def _add_node_ordered(
             self, node, children, *, capacity=None, **kwargs):
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 28f8769..5f86345 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -370,128 +370,42 @@ def _get_overflow_node(node, overflow_nodes, outbound_node=None):
     # then fall back to `node` if none was found:
     return _get_related_node(overflow_nodes, outbound_node, node)
 
-def _restrict_overflow(
-        graph, node, children, flows, overflow_nodes, outbound_nodes=None):
-    """ Limits overflows to successors not in `children` at given flows.
+def _is_expandable(graph, node, sink, flows):
+    """ Determines whether additional flow can reach `sink` from `node`.
 
-    If `node` (or its outbound node) has an overflow node, outbound
-    edges from that overflow node to any children not in `children` have
-    their capacity limited to the values for those edges in `flows`.
-    This prevents any children not in `children` from increasing their
-    total flows, but allows flows to shift between nodes in `children`.
-
-    `_unrestrict_overflow` is a companion method.
+    Only paths through `node`'s descendants are considered (although
+    flow between those descendants may be diverted to make room).
 
     Args:
         graph (networkx.DiGraph): A directed graph.
         node (Hashable): A node in `graph`
-        children (Iterable[Hashable]): A collection of `node`'s children
-            to which overflows should _not_ be restricted.
+        sink (Hashable): A node in `graph`.
         flows (dict[Hashable: dict[Hashable: int]]): Flows as
-            `from_node: (to_node: flow_value)` triples. Optional.
-        overflow_nodes (dict[Hashable, Hashable]): A mapping of
-            `node: overflow_node` pairs.
-        outbound_nodes (dict[Hashable, Hashable]): A mapping of
-            `node: outbound_node` pairs. Optional.
-    """
-    # Process input:
-    outbound_node = _get_outbound_node(node, outbound_nodes)
-    overflow_node = _get_overflow_node(
-        node, overflow_nodes, outbound_node=outbound_node)
-
-    if overflow_node is None:
-        # If there is no overflow node, there's nothing to do.
-        return
-
-    # Limit the capacity from `overflow_node` to each child of `node`
-    # which is _not_ in `children`. The goal here is to ensure that any
-    # changed in 0-weight capacity result in excess flow being forced
-    # through `children` (via `overflow_node`) and not other nodes.
-    for child in node.children:
-        if child not in children:
-            if overflow_node in flows and child in flows[overflow_node]:
-                capacity = flows[overflow_node][child]
-            else:
-                capacity = 0
-            edge_data = {CAPACITY_KEY: capacity}
-            graph.add_edge(overflow_node, child, **edge_data)
-
-def _unrestrict_overflow(
-        graph, node, overflow_nodes, outbound_nodes=None):
-    """ Undoes the effects of `_restrict_overflow`.
-
-    If `node` (or its outbound node) has an overflow node, outbound
-    edges from that overflow node have their capacity reset so as not
-    to restrict flows over those edges.
-
-    Args:
-        graph (networkx.DiGraph): A directed graph.
-        node (Hashable): A node in `graph`
-        overflow_nodes (dict[Hashable, Hashable]): A mapping of
-            `node: overflow_node` pairs.
-        outbound_nodes (dict[Hashable, Hashable]): A mapping of
-            `node: outbound_node` pairs. Optional.
-    """
-    # Process input:
-    outbound_node = _get_outbound_node(node, outbound_nodes)
-    overflow_node = _get_overflow_node(
-        node, overflow_nodes, outbound_node=outbound_node)
-
-    if overflow_node is None:
-        # If there is no overflow node, there's nothing to do.
-        return
-
-    # Restore plenty of capacity to each edge from `overflow_node` to
-    # each child:
-    capacity = _outbound_capacity(graph, outbound_node, weight=0)
-    for child in node.children:
-        edge_data = {CAPACITY_KEY: capacity}
-        graph.add_edge(overflow_node, child, **edge_data)
-
-def _swap_saturated(
-        saturated, non_saturated, node, children, graph, flows,
-        outbound_nodes=None):
-    """ Moves nodes with differing flows/capacity to `non_saturated`.
-
-    Any nodes in `saturated` which have inbound flows from `node`
-    that are different from the flows in `flows` are moved to
-    `non_saturated`. The implication of such a mismatch is that
-    such nodes now receive more or less flows than their 0-weight
-    capacity, which means they are not saturated.
-
-    `saturated` and `non_saturated` are mutated by this method.
+            `from_node: (to_node: flow_value)` triples.
 
-    Args:
-        saturated (set[Hashable]): A collection of nodes to check for
-            saturated status.
-        non_saturated (set[Hashable]): A collection of nodes to move
-            non-saturated nodes to.
-        node (Hashable): A predecessor to nodes in `saturated`; only
-            paths between `node` and nodes in `saturated` are considered
-        children (Iterable[Hashable]): A collection of `node`'s
-            children. Only nodes in `children` will be moved.
-        graph (networkx.DiGraph): A directed graph.
-        flows (dict[Hashable: dict[Hashable: int]]): Flows as
-            `from_node: (to_node: flow_value)` triples. Optional.
-        outbound_nodes (dict[Hashable, Hashable]): A mapping of
-            `node: outbound_node` pairs. Optional.
+    Returns:
+        bool: True if more flow can travel from `node` to `sink` without
+        exceeding any edge's capacity.
     """
-    # Process input:
-    outbound_node = _get_outbound_node(node, outbound_nodes)
-
-    # Re-calculate membership of `saturated`. This is intended to be
-    # called after reallocation of capacity between nodes based on
-    # previously-identified underflows or overflows:
-    for child in children:
-        # Iterate over `children` instead of `saturated` because we
-        # want to mutate `saturated`:
-        if child in saturated:
-            new_capacity = graph[outbound_node][child][CAPACITY_KEY]
-            old_capacity = flows[outbound_node][child]
-            # (Having more capacity doesn't make a node a bottleneck)
-            if new_capacity < old_capacity:
-                saturated.remove(child)
-                non_saturated.add(child)
+    descendants = networkx.descendants(graph, node)
+    visited = {node}
+    unvisited = [node]
+    while unvisited:
+        visiting = unvisited.pop()
+        if visiting == sink:
+            return True
+        # Flow can be added to any outbound edge that isn't full and
+        # removed from any inbound edge that isn't empty:
+        adjacent = {
+            to_node for to_node, edge in graph[visiting].items()
+            if flows[visiting][to_node] < edge.get(
+                CAPACITY_KEY, float('inf'))}
+        adjacent.update(
+            from_node for from_node in graph.predecessors(visiting)
+            if from_node in descendants and flows[from_node][visiting] > 0)
+        unvisited.extend(adjacent - visited)
+        visited |= adjacent
+    return False
 
 def _classify_children_by_flows(
         graph, node, children, flows,
-- 
2.43.0


From bfe29cd4ca509b811da83e5e933a79dddb7a348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 46/80] fix: order low-interest debts even if some are paid off
 or grouped apart

---
 forecaster/strategy/transaction/strategy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index db0b13b..2fe40cd 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -305,11 +305,10 @@ class TransactionStrategy(Strategy):
     def __call__(self, available, accounts, *args, **kwargs):
         """ Returns a dict of account: transaction pairs. """
         # Debts get special treatment, so separate them out here:
-        low_interest_debts, high_interest_debts = self.divide_debts(accounts)
-        # Get priority trees for each debt. These will be inserted into
-        # the final priority tree differently (in-place replacement for
-        # low-interest, prepending for high-interest.)
-        low_interest_priority = self.debt_priority(low_interest_debts)
+        # (Low-interest debts stay in their groups; see below)
+        _, high_interest_debts = self.divide_debts(accounts)
+        # Get a priority tree for high-interest debts. This will be
+        # prepended to the final priority tree.
         high_interest_priority = self.debt_priority(high_interest_debts)
 
         # Group together accounts that share weights (and map them to
@@ -319,7 +318,9 @@ class TransactionStrategy(Strategy):
 
         # Ensure that low-interest debts are properly ordered, rather
         # than assigned some default order based on their common typing:
-        subtrees = {low_interest_debts: low_interest_priority}
+        subtrees = {
+            group: self.debt_priority(group) for group in groups
+            if all(isinstance(account, Debt) for account in group)}
 
         # Get the basic priority tree based on this strategy:
         priority = super().__call__(
-- 
2.43.0


From 69521c93cb47966c76431d8e53d9112324c158a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 47/80] fix: objects no longer share cached high-precision
 values

---
 forecaster/utility/precision.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/forecaster/utility/precision.py b/forecaster/utility/precision.py
index a2e85cd..40891c0 100644
--- a/forecaster/utility/precision.py
+++ b/forecaster/utility/precision.py
@@ -107,9 +107,15 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
     def __init__(self):
         super().__init__()
-        # Cached values (for efficient calls to __get__):
-        self._high_precision_cache = None
-        self._high_precision_value_cache = None
+        # Set by __set_name__
+        self.cache_name = None
+
+    def __set_name__(self, owner, name):
+        super().__set_name__(owner, name)
+        # This descriptor is shared by all objects of the class, so
+        # values are cached by each object:
+        # (for efficient calls to __get__)
+        self.cache_name = self.private_name + '_high_precision_cache'
 
     def __get__(self, obj, objtype=None, *, high_precision=None):
         # When called by metaclass on class init, `obj` is None:
@@ -127,13 +133,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
         # Check to see if the previous return value is cached and can
         # be used for these inputs:
+        cache = getattr(obj, self.cache_name, None)
         if (
                 # Confirm we have a cached value (this fails if a new
                 # value has been set since the last call to __get__):
-                self._high_precision_value_cache is not None and
+                cache is not None and
                 # Confirm that the conversion method is the same:
-                self._high_precision_cache == high_precision):
-            return self._high_precision_value_cache
+                cache[0] == high_precision):
+            return cache[1]
 
         # If we can't use the cache, calculate a fresh value:
         value = super().__get__(
@@ -143,15 +150,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
             high_precision=high_precision)
 
         # Update the cache to make the next call more efficient:
-        self._high_precision_value_cache = value
-        self._high_precision_cache = high_precision
+        setattr(obj, self.cache_name, (high_precision, value))
 
         return value
 
     def __set__(self, obj, value):
         super().__set__(obj, value)
         # Invalidate the cache
-        self._high_precision_value_cache = None
+        setattr(obj, self.cache_name, None)
 
 class HighPrecisionOptional(object):
     """ Supports both native and high-precision numerical types.
-- 
2.43.0


From 921d3f55cde719e884f028a8668188e856f97d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 48/80] fix: find the time an account can pay, allowing for
 growth

---
 forecaster/forecast/subforecast.py | 140 ++++++++++++-----------------
 1 file changed, 55 insertions(+), 85 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 428b5d1..e6c29a0 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -4,6 +4,7 @@ from collections import defaultdict
 from collections.abc import Hashable
 from forecaster.ledger import Ledger, recorded_property
 from forecaster.accounts import Account
+from forecaster.accounts.util import value_at_time, time_to_value
 from forecaster.utility import Timing
 
 class TransactionDict(defaultdict):
@@ -376,26 +377,24 @@ class SubForecast(Ledger):
 
     def _shift_when(self, value, when, account):
         """ Shifts `when` to a time that avoids negative balances. """
-        # First, figure out how much is available for withdrawal at
-        # all material times:
+        # Accounts can grow (or shrink) between transactions, so they
+        # get special treatment:
         if isinstance(account, Account):
-            # For accounts, we can use special features to (e.g.)
-            # interpolate balances between transactions based on
-            # growth rates.
-            accum = self._accum_account(
-                account=account, when=when, target_value=value)
-        else:
-            # For non-Accounts, use generic dict interface to add up
-            # transactions, assuming no growth rate or other
-            # Account-specific features.
-            keys = account.keys() | {when}  # Always include `when`
-            accum = {
-                t: sum(
-                    # For each point in time `t`, find the sum of all
-                    # transactions up to this point:
-                    account[r] for r in account if r <= t)
-                   # Exclude times before `when`:
-                for t in keys if t >= when}
+            return self._shift_when_account(
+                value=value, when=when, account=account)
+
+        # For non-Accounts, use generic dict interface to add up
+        # transactions, assuming no growth rate or other
+        # Account-specific features, to figure out how much is
+        # available for withdrawal at all material times.
+        keys = account.keys() | {when}  # Always include `when`
+        accum = {
+            t: sum(
+                # For each point in time `t`, find the sum of all
+                # transactions up to this point:
+                account[r] for r in account if r <= t)
+               # Exclude times before `when`:
+            for t in keys if t >= when}
 
         # Find the points in time where subtracting `value`
         # would not put any future point in time into negative
@@ -410,70 +409,41 @@ class SubForecast(Ledger):
         return min_time
 
     @staticmethod
-    def _accum_account(account, when, target_value=None):
-        """ Accumulates transaction histories to provide cash available.
-
-        This method takes an `Account` and determines how much money is
-        available to be withdrawn from the account at the time of each
-        existing transaction and also at `when`.
-
-        The method also attempts to interpolate additional times between
-        the existing transactions where the amount available to be
-        withdrawn is equal to `target_value`. Due to implementation
-        limitations, the exact timing is not guaranteed to be found
-        (but for most Account types it will be found exactly.)
-
-        Returns:
-            A dict of `{float: float}` pairs. The keys include
-            all times in `transactions` at or after `when`, plus
-            `when` itself (if not already included). If `target_value`
-            is provided, the keys may include additional times. Values
-            are amounts of transactions at the corresponding time.
+    def _shift_when_account(value, when, account):
+        """ Shifts `when` to a time that avoids negative balances.
+
+        This is the `Account`-specific version of `_shift_when`. It
+        accounts for growth (or decline) of the balance between
+        transactions and of the amount withdrawn, so the time it finds
+        isn't necessarily the time of an existing transaction.
         """
-        keys = account.keys() | {when}  # Always include `when`
-        # Use Account logic to determine how much is available at the
-        # time of each existing transaction and also at `when`:
-        accum = {
-            t: -account.max_outflow(t)
-               # Exclude times before `when`:
-            for t in keys if t >= when
-        }
-        # Try to interpolate times where we achieve the desired
-        # value, if that value is known:
-        if target_value is not None:
-            # We want to look at each time (except the first) and
-            # the time immediately prior to it.
-            times = sorted(accum.keys())  # NOTE: ascending order
-            for i in range(1, len(times)):
-                earlier = times[i-1]
-                later = times[i]
-                # We only care about pairs where the desired value
-                # falls between the times in question:
-                if (
-                        (
-                            accum[later] > target_value
-                            and accum[earlier] < target_value)
-                        or (
-                            accum[later] < target_value
-                            and accum[earlier] > target_value)
-                ):
-                    # HACK: The account _balance_ is used here as a
-                    # proxy for money available for withdrawal.
-                    # This can be inaccurate; e.g. for `Debt` accounts.
-                    # `max_outflow` is the correct way to check this
-                    # for a known point in time, but there's no method
-                    # for finding the point in time when `max_outflow`
-                    # will be a certain value.
-                    # This hack is only used to identify candidate
-                    # timings to shift `when` to; those candidates
-                    # don't have to be correct, so this is OK.
-
-                    # Ask the account to find an in-between time
-                    # where we hit the desired value exactly.
-                    time = account.time_to_balance(
-                        value=target_value, when=earlier)
-                    # If that time falls within the period
-                    # (earlier, later), then add it!
-                    if time > earlier and time < later:
-                        accum[time] = -sum(account.max_outflows(time).values())
-        return accum
+        # There's no suitable time if the account doesn't allow outflows
+        # this large, and any time is suitable if there's no outflow:
+        if value <= 0 or value > -account.max_outflow_limit:
+            return when
+
+        # Look at the interval between each time and the next one (and,
+        # lastly, the end of the year), starting at `when`:
+        times = sorted({t for t in account.keys() if t > when} | {when})
+        balances = {t: account.balance_at_time(t) for t in times}
+        for i, start in enumerate(times):
+            # The most that can be withdrawn at `start` is the smallest
+            # balance from then on, discounted to `start`.
+            available = min(
+                value_at_time(
+                    balances[t], account.rate, t, start, nper=account.nper,
+                    high_precision=account.high_precision)
+                for t in times[i:])
+            if available >= value:
+                return start
+            # The amount that can be withdrawn grows over the course of
+            # the interval, so see if it gets to `value` in time:
+            if available > 0 and account.rate > 0:
+                time = start + time_to_value(
+                    account.rate, available, value, nper=account.nper,
+                    high_precision=account.high_precision)
+                if time < times[i+1] if i + 1 < len(times) else time <= 1:
+                    return time
+
+        # There's no suitable time, so go with the requested one:
+        return when
-- 
2.43.0


From 18addd5d5d6ad95b9a46b441f50ed299f4e19181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 49/80] fix: list the accounts of a record of transactions

---
 forecaster/forecast/subforecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index e6c29a0..b734664 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -74,7 +74,7 @@ class TransactionDict(defaultdict):
         # NOTE: We can't use a frozenset; it requires hashable values.
 
         # Translation between key and id(key) is handled by __iter__
-        return sorted(self.__iter__())  # Returns a list
+        return list(self.__iter__())  # Returns a list
 
 class SubForecast(Ledger):
     """ Generic class for implementing part of a financial forecast.
-- 
2.43.0


From e3c35c347af596ab9d99576b8364a29a24bb5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 50/80] fix: count the money in an account as available, not as
 owed

---
 forecaster/forecast/subforecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index b734664..1173b32 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -200,7 +200,7 @@ class SubForecast(Ledger):
             # Consider whether we should instead sum over transactions
             # (for dicts and Accounts) and then add the account opening
             # balance (only for Accounts).
-            self.total_available = available.max_outflow(1)
+            self.total_available = -available.max_outflow(1)
         else:
             self.total_available = sum(available.values())
 
-- 
2.43.0


From 60610227a76eed0dfdd3a302116582003c3990d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 51/80] fix: incur living expenses when nobody has an income

---
 forecaster/forecast/living_expenses.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index e7d3a48..35f81a9 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -49,8 +49,16 @@ class LivingExpensesForecast(SubForecast):
         # living expenses every time each of them gets paid
         # proportionately to their share of net income.
         total_income = sum(person.net_income for person in self.people)
-        income_weights = {
-            person: person.net_income / total_income for person in self.people}
+        if total_income > 0:
+            income_weights = {
+                person: person.net_income / total_income
+                for person in self.people}
+        else:
+            # Nobody has any income (e.g. due to retirement), so share
+            # living expenses equally:
+            income_weights = {
+                person: self.precision_convert(1) / len(self.people)
+                for person in self.people}
         for person in self.people:
             self.add_transaction(
                 self.living_expenses * income_weights[person],
-- 
2.43.0


From d09fcefc2c2b82be42fb163487a90802ea1dca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 52/80] fix: report repayments of debts, not savings, as
 debt_repayment

---
 forecaster/forecast/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 9c24e79..101e0db 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -75,7 +75,7 @@ class SavingForecast(SubForecast):
         # class is all about.
         return sum(
             sum(self.account_transactions[account].values())
-            for account in self.retirement_accounts
+            for account in self.debt_accounts
             if account in self.account_transactions)
 
     @recorded_property_cached
-- 
2.43.0


From f04c50a4a6e0a6a6d39fec442009679a2a681863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 53/80] fix: save only if there is money to save

---
 forecaster/forecast/saving.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 101e0db..bd207cf 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -49,9 +49,14 @@ class SavingForecast(SubForecast):
         # started on doing the updates:
         super().__call__(available)
 
-        accounts = set(self.retirement_accounts).union(self.debt_accounts)
-        self.account_transactions = self.transaction_strategy(
-            available, accounts=accounts)
+        # If there's a shortfall then there's nothing to contribute.
+        # (Covering it with withdrawals is `WithdrawalForecast`'s job.)
+        if self.total_available > 0:
+            accounts = set(self.retirement_accounts).union(self.debt_accounts)
+            self.account_transactions = self.transaction_strategy(
+                available, accounts=accounts)
+        else:
+            self.account_transactions = {}
 
         # NOTE: We let the transactions_strategy determine
         # timing. It will use each account's default timing. Consider
-- 
2.43.0


From 9e09c42646924da3e59e472ff021daac7dfbf004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 54/80] fix: withdraw only if there is a shortfall

---
 forecaster/forecast/withdrawal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index fbdc27e..0c7c2ea 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -57,8 +57,13 @@ class WithdrawalForecast(SubForecast):
         # started on doing the updates:
         super().__call__(available)
 
-        self.account_transactions = self.transaction_strategy(
-            available, accounts=self.accounts)
+        # If there isn't a shortfall then there's nothing to withdraw.
+        # (Contributing any excess is `SavingForecast`'s job.)
+        if self.total_available < 0:
+            self.account_transactions = self.transaction_strategy(
+                available, accounts=self.accounts)
+        else:
+            self.account_transactions = {}
 
         # pylint: disable=not-an-iterable,unsubscriptable-object,no-member
         # pylint can't infer the type of account_transactions
-- 
2.43.0


From 6fadcfa92ef9ecf28cc9980d1db961aa33e8308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 55/80] fix: report the amounts withdrawn, not the amount
 needed

---
 forecaster/forecast/withdrawal.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 0c7c2ea..e41ea3b 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -3,7 +3,7 @@
 from forecaster.ledger import (
     recorded_property, recorded_property_cached)
 from forecaster.forecast.subforecast import SubForecast
-from forecaster.utility import transactions_from_timing
+from forecaster.utility import EPSILON, transactions_from_timing
 
 class WithdrawalForecast(SubForecast):
     """ A forecast of withdrawals from a portfolio over time.
@@ -137,11 +137,21 @@ class WithdrawalForecast(SubForecast):
     @recorded_property_cached
     def gross_withdrawals(self):
         """ Total gross withdrawals for the year. """
-        # The amount withdrawn is simply the shortfall in cashflow
-        # over the course of the year.
         # TODO: Increase gross withdrawals based on tax liability #34
         # Aim is for `net_withdrawals` to approximate `total_available`.
-        return -self.total_available
+        withdrawals = -sum(
+            (
+                sum(transactions.values())
+                for transactions in self.account_transactions.values()),
+            self.precision_convert(0)) # Money value
+        # This is the shortfall in cashflow over the course of the year
+        # (up to the precision of `transaction_strategy`), unless the
+        # accounts don't hold that much.
+        if (
+                self.account_transactions
+                and abs(self.total_available + withdrawals) < 2 * EPSILON):
+            return -self.total_available
+        return withdrawals
 
     @recorded_property
     def net_withdrawals(self):
-- 
2.43.0


From cbca4341f8b6b23caf74bb5dd75a5fa223f5aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:34 +0000
Subject: [PATCH 56/80] fix: report the taxes withheld in the year, not in all
 years

---
 forecaster/forecast/withdrawal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index e41ea3b..a544103 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -128,6 +128,12 @@ class WithdrawalForecast(SubForecast):
             # Keep track of total tax withheld:
             self.tax_withheld += new_tax_withheld
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been withheld yet this year:
+        self.tax_withheld = self.precision_convert(0) # Money value
+
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-- 
2.43.0


From c0b32f17301ecf9f8874ad8a1bf010e2bb1f6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:53 +0000
Subject: [PATCH 57/80] fix: take withholding taxes out of cash, not add them
 to it

---
 forecaster/forecast/withdrawal.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index a544103..92fdabc 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -72,7 +72,7 @@ class WithdrawalForecast(SubForecast):
         # Keep track of tax withholdings before adding transactions to
         # accounts so we can check later for changes.
         tax_withheld = {
-            account: account.tax_withheld for account in self.accounts}
+            account: self._tax_withheld(account) for account in self.accounts}
 
         # Record the transactions for each account as dictated by
         # `transaction_strategy`:
@@ -87,6 +87,15 @@ class WithdrawalForecast(SubForecast):
             # be sure to flow money into/out of `available` as needed:
             self._update_tax_withheld(account, available, tax_withheld[account])
 
+    @staticmethod
+    def _tax_withheld(account):
+        """ Tax withheld from `account`, as an outflow (i.e. negative).
+
+        Accounts such as `RRSP` give withholdings as positive amounts
+        (as do people), so signs need to be made consistent.
+        """
+        return -abs(account.tax_withheld)
+
     def _update_tax_withheld(self, account, available, old_tax_withheld):
         """ Moves new tax withholdings out of `available`.
 
@@ -103,17 +112,18 @@ class WithdrawalForecast(SubForecast):
             available (dict[Number, float]): A time-series of available
                 cash. The net value indicates a surplus (positive) or
                 shortfall (negative) of cash.
-            old_tax_withheld (float): The amount of tax withheld prior
-                to the addition of a transaction to `account`. This is
-                used as the base of comparison to determine what the
-                difference in withholdings is post-transaction.
+            old_tax_withheld (float): The amount of tax withheld, as a
+                negative value, prior to the addition of a transaction
+                to `account`. This is used as the base of comparison to
+                determine what the difference in withholdings is
+                post-transaction.
         """
         # If the tax withholdings have changed (usually we'd expect
         # an increase, but this code works for decreases too) then
         # record a transaction out of the account:
-        if account.tax_withheld != old_tax_withheld:
+        if self._tax_withheld(account) != old_tax_withheld:
             # Find the change in tax withholdings for the account
-            new_tax_withheld = account.tax_withheld - old_tax_withheld
+            new_tax_withheld = self._tax_withheld(account) - old_tax_withheld
             # Assume they're withheld with the same timing and
             # weighting as the withdrawals themselves:
             transactions = transactions_from_timing(
-- 
2.43.0


From d1644a45694c2880e3ca55127fa2a21014209b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 58/80] fix: recalculate figures when a part of a forecast is
 called

---
 forecaster/forecast/subforecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 1173b32..d4d58b9 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -185,6 +185,8 @@ class SubForecast(Ledger):
             self.undo_transactions()
         # Keep track of the fact that this method has been called again:
         self._call_invoked = True
+        # Any figures calculated earlier this year are now out of date:
+        self.clear_cache()
 
         # It's often useful to know (in scalar terms) how much money
         # is available for use by the Forecast in the year. Track
-- 
2.43.0


From 992d68a54164691669b04edd92a5d2dc3f2edd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 59/80] fix: stop reporting transactions that were undone or
 made in past years

---
 forecaster/forecast/saving.py     | 12 ++++++++++++
 forecaster/forecast/withdrawal.py |  6 ++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index bd207cf..ae0691d 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -72,6 +72,18 @@ class SavingForecast(SubForecast):
         # living expenses. (See former `ReductionForecast` code for
         # a related implementation of this.)
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been contributed yet this year:
+        self.account_transactions = {}
+
+    def undo_transactions(self):
+        """ Reverses all transactions cause by this subforecast. """
+        super().undo_transactions()
+        # There are no longer any contributions:
+        self.account_transactions = {}
+
     @recorded_property_cached
     def debt_repayment(self):
         """ Total debt repaid for the year from savings. """
diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 92fdabc..b094885 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -141,13 +141,15 @@ class WithdrawalForecast(SubForecast):
     def next_year(self):
         """ Adds a year to the forecast. """
         super().next_year()
-        # Nothing has been withheld yet this year:
+        # Nothing has been withdrawn or withheld yet this year:
+        self.account_transactions = {}
         self.tax_withheld = self.precision_convert(0) # Money value
 
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-        # Reset tax_withheld:
+        # There are no longer any withdrawals or withholdings:
+        self.account_transactions = {}
         self.tax_withheld = self.precision_convert(0) # Money value
 
     @recorded_property_cached
-- 
2.43.0


From 272a4bbb9c03302e4184266d6fbc07dd887802e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:53 +0000
Subject: [PATCH 60/80] fix: explicit transaction strategies use the copied
 accounts in a run

---
 forecaster/forecaster.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 41a3f29..4bb0c6a 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -226,10 +226,10 @@ class Forecaster(HighPrecisionOptional):
             and withdrawals over the years.
         """
         # We don't want to mutate the inputs, so create copies:
-        memo = {}
-        people = deepcopy(people, memo=memo)
-        accounts = deepcopy(accounts, memo=memo)
-        debts = deepcopy(debts, memo=memo)
+        copies = {}
+        people = deepcopy(people, memo=copies)
+        accounts = deepcopy(accounts, memo=copies)
+        debts = deepcopy(debts, memo=copies)
 
         # Build Scenario first so that we have access to initial_year:
         memo = {}
@@ -243,6 +243,11 @@ class Forecaster(HighPrecisionOptional):
             Parameter.SAVING_STRATEGY, memo=memo)
         withdrawal_strategy = self.get_param(
             Parameter.WITHDRAWAL_STRATEGY, memo=memo)
+        # Explicitly-provided strategies may refer to the accounts passed
+        # as arguments (e.g. in a priority tree), so they need to be
+        # copied in the same way to refer to the copied accounts:
+        saving_strategy = deepcopy(saving_strategy, memo=copies)
+        withdrawal_strategy = deepcopy(withdrawal_strategy, memo=copies)
         tax_treatment = self.get_param(
             Parameter.TAX_TREATMENT, memo=memo)
 
-- 
2.43.0


From 82100c86b1f9f11b75d98bc8ed72cd1d89cebea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 61/80] fix: build_allocation_strategy passes only the
 arguments it is given

---
 forecaster/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 4bb0c6a..924dd1a 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -496,5 +496,5 @@ class Forecaster(HighPrecisionOptional):
         other parameters.
         """
         return self.build_param(
-            Parameter.ALLOCATION_STRATEGY, AllocationStrategy, *args,
+            Parameter.ALLOCATION_STRATEGY, *args,
             _special_builder=False, **kwargs)
-- 
2.43.0


From 8d4bd29fc56639095843d792452c76fc65ea305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 62/80] fix: parameters can be built with positional arguments

---
 forecaster/forecaster.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 924dd1a..106c669 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -2,6 +2,7 @@
 
 from copy import copy, deepcopy
 from functools import reduce
+from inspect import signature
 from enum import Enum
 from forecaster.forecast import (
     Forecast, IncomeForecast, LivingExpensesForecast,
@@ -343,6 +344,8 @@ class Forecaster(HighPrecisionOptional):
         if _special_builder and param_name in self.default_builders:
             return getattr(
                 self, self.default_builders[param_name])(*args, **kwargs)
+        if param_type is None:
+            param_type = self.default_types[param_name]
         # For everything else, use the user-provided defaults and fill
         # in the gaps with the settings-provided defaults:
         if param_name in self.default_values:
@@ -355,13 +358,15 @@ class Forecaster(HighPrecisionOptional):
                 default_values[key] = self._get_attr_recursive(value, memo=memo)
             # If any values have been provided explicitly, override
             # the defaults with that:
+            if args:
+                positional = signature(param_type).bind_partial(*args)
+                for key in positional.arguments:
+                    default_values.pop(key, None)
             default_values.update(kwargs)
             kwargs = default_values
         # Build a new object (note that we don't set the corresponding
         # attribute of Forecaster; if this is called again, we'll build
         # a new object)
-        if param_type is None:
-            param_type = self.default_types[param_name]
         # Pass `high_precision` as a kwarg if the type supports it:
         is_high_precision_type = any(
             issubclass(param_type, high_precision_type)
-- 
2.43.0


From ba9004a0fbef28168661c124f4294a2aee55925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 63/80] fix: parameters built from settings do not share their
 values

---
 forecaster/forecaster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 106c669..96b2426 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -356,6 +356,10 @@ class Forecaster(HighPrecisionOptional):
             # attribute of the `Forecaster` object:
             for key, value in default_values.items():
                 default_values[key] = self._get_attr_recursive(value, memo=memo)
+                # (The object being built must not be affected by later
+                # changes to `settings`, or vice versa)
+                if value.startswith('settings.'):
+                    default_values[key] = deepcopy(default_values[key])
             # If any values have been provided explicitly, override
             # the defaults with that:
             if args:
-- 
2.43.0


From 73c6c8089fdc974b986c97280c9d950308462ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 64/80] fix: forecasters do not share their default values

---
 forecaster/canada/forecaster.py | 3 ++-
 forecaster/forecaster.py        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/forecaster.py b/forecaster/canada/forecaster.py
index c34c811..234ae10 100644
--- a/forecaster/canada/forecaster.py
+++ b/forecaster/canada/forecaster.py
@@ -1,5 +1,6 @@
 """ Provides a Canada-specific implementation of Forecaster. """
 
+from copy import deepcopy
 from forecaster.forecaster import Forecaster, Parameter
 from forecaster.canada.tax import TaxCanada
 from forecaster.canada.settings import SettingsCanada
@@ -29,5 +30,5 @@ class ForecasterCanada(Forecaster):
         if settings is None:
             settings = SettingsCanada()
         super().__init__(*args, settings=settings, **kwargs)
-        self.default_values.update(DEFAULTVALUES)
+        self.default_values.update(deepcopy(DEFAULTVALUES))
         self.default_types.update(DEFAULTTYPES)
diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 96b2426..948e638 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -145,7 +145,7 @@ class Forecaster(HighPrecisionOptional):
         """ Inits an instance of `Forecaster`. """
         # Set up instance:
         super().__init__(high_precision=high_precision)
-        self.default_values = copy(DEFAULTVALUES)
+        self.default_values = deepcopy(DEFAULTVALUES)
         self.default_types = copy(DEFAULTTYPES)
         self.default_builders = copy(DEFAULTBUILDERS)
         # Store args as attributes:
-- 
2.43.0


From 0c0ffe5e976124cb4dbcd41ee45d75f01d0efe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 65/80] fix: TaxCanada accepts payment and refund timings

---
 forecaster/canada/tax.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 8885cf9..aab744e 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -18,6 +18,9 @@ class TaxCanadaJurisdiction(Tax):
             self.constants = ConstantsCanada(high_precision=high_precision)
         else:
             self.constants = constants
+        # Use the usual timings unless others are explicitly provided:
+        kwargs.setdefault('refund_timing', self.constants.TAX_REFUND_TIMING)
+        kwargs.setdefault('payment_timing', self.constants.TAX_PAYMENT_TIMING)
         # All the work here is done by the superclass, we just need to
         # tell it what brackets/credits/deductions/timing to apply:
         super().__init__(
@@ -27,8 +30,6 @@ class TaxCanadaJurisdiction(Tax):
             ],
             credit_rate=self.constants.TAX_CREDIT_RATE[jurisdiction],
             inflation_adjust=inflation_adjustments,
-            refund_timing=self.constants.TAX_REFUND_TIMING,
-            payment_timing=self.constants.TAX_PAYMENT_TIMING,
             **kwargs)
 
         self.jurisdiction = jurisdiction
@@ -165,7 +166,8 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
     """
 
     def __init__(
-            self, inflation_adjust, province='BC', constants=None, **kwargs):
+            self, inflation_adjust, province='BC', constants=None,
+            *, high_precision=None, **kwargs):
         """ Initializes TaxCanada.
 
         Args:
@@ -181,13 +183,15 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
                 payments. See `Tax` documentation for more information.
         """
         self.federal_tax = TaxCanadaJurisdiction(
-            inflation_adjust, constants=constants, **kwargs)
+            inflation_adjust, constants=constants,
+            high_precision=high_precision, **kwargs)
         self.provincial_tax = TaxCanadaJurisdiction(
-            inflation_adjust, province, constants=constants, **kwargs)
+            inflation_adjust, province, constants=constants,
+            high_precision=high_precision, **kwargs)
         self.province = province
 
         jurisdictions = (self.federal_tax, self.provincial_tax)
-        super().__init__(jurisdictions, **kwargs)
+        super().__init__(jurisdictions, high_precision=high_precision)
 
     def __call__(
             self, income, year,
-- 
2.43.0


From 29eb8cfed11c621addc383f822a3e895f3e3d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:27 +0000
Subject: [PATCH 66/80] fix: rounding errors do not put off transactions

A transaction is put off until there is enough money for it. Where the
transactions use up everything that is available at a time, rounding
errors (which depend on the order that sets happen to be in, and so can
differ each time that a forecast is run) could make it look like there
is not quite enough, and the whole transaction was put off until much
later. Disregard shortfalls smaller than the usual precision.
---
 forecaster/forecast/subforecast.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index d4d58b9..6e94f27 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -5,7 +5,7 @@ from collections.abc import Hashable
 from forecaster.ledger import Ledger, recorded_property
 from forecaster.accounts import Account
 from forecaster.accounts.util import value_at_time, time_to_value
-from forecaster.utility import Timing
+from forecaster.utility import EPSILON, Timing
 
 class TransactionDict(defaultdict):
     """ A defaultdict that accepts unhashable keys.
@@ -400,10 +400,10 @@ class SubForecast(Ledger):
 
         # Find the points in time where subtracting `value`
         # would not put any future point in time into negative
-        # balance.
+        # balance. (Disregard differences due to rounding.)
         eligible_times = (
             t for t in accum if all(
-                accum[r] >= value for r in accum if r >= t))
+                accum[r] - value > -EPSILON for r in accum if r >= t))
 
         # Find the earliest valid time (or, if none exists,
         # use `when`)
@@ -436,7 +436,8 @@ class SubForecast(Ledger):
                     balances[t], account.rate, t, start, nper=account.nper,
                     high_precision=account.high_precision)
                 for t in times[i:])
-            if available >= value:
+            # (Disregard differences due to rounding.)
+            if available - value > -EPSILON:
                 return start
             # The amount that can be withdrawn grows over the course of
             # the interval, so see if it gets to `value` in time:
-- 
2.43.0


From 47b935562848b63f270d0d8905d1d87bcee51d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:05 +0000
Subject: [PATCH 67/80] fix: transactions are made in the order of their times

Where a group of transactions is put off until there is enough money
for them, the result depends on the order in which they are made. That
order followed from the order of sets (e.g. of people, where they aren't
all paid at the same times), so running the same forecast again could
give different figures. Make them from the earliest to the latest.
---
 forecaster/forecast/subforecast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 6e94f27..9c0aef1 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -248,7 +248,8 @@ class SubForecast(Ledger):
                 later than `when` if this avoids putting accounts in
                 a negative balance. If True, `when` is always used.
         """
-        for when, value in transactions.items():
+        # (Make earlier transactions first, in whatever order they came)
+        for when, value in sorted(transactions.items()):
             self.add_transaction(
                 value=value, timing=when,
                 from_account=from_account, to_account=to_account,
@@ -323,8 +324,9 @@ class SubForecast(Ledger):
         # didn't do that for us...)
         total_weight = sum(timing.values())
         # Add a transaction at each timing, with a transaction value
-        # proportionate to the (normalized) weight for its timing:
-        for when, weight in timing.items():
+        # proportionate to the (normalized) weight for its timing,
+        # from the earliest to the latest:
+        for when, weight in sorted(timing.items()):
             weighted_value = value * (weight / total_weight)
             self._add_transaction(
                 value=weighted_value, when=when,
-- 
2.43.0


From e50145a23efe1026278bd08f224134b4b4e7372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:46 +0000
Subject: [PATCH 68/80] fix: living expenses do not depend on the order of
 people

Living expenses were taken out of the available money for one person at
a time, each being put off until there is enough money left. Where
people are paid at different times, the result depended on whose turn
came first, which follows from the arbitrary order of a set, so running
the same forecast again could give different figures. Add up everyone's
living expenses at each time first.
---
 forecaster/forecast/living_expenses.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index 35f81a9..9fe150a 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -2,6 +2,7 @@
 
 from forecaster.ledger import recorded_property_cached
 from forecaster.forecast.subforecast import SubForecast
+from forecaster.utility import add_transactions, transactions_from_timing
 
 class LivingExpensesForecast(SubForecast):
     """ A forecast of each year's living expenses.
@@ -59,11 +60,18 @@ class LivingExpensesForecast(SubForecast):
             income_weights = {
                 person: self.precision_convert(1) / len(self.people)
                 for person in self.people}
+        # (Add up expenses before taking them out of `available`, so that
+        # the order of people makes no difference.)
+        transactions = {}
         for person in self.people:
-            self.add_transaction(
-                self.living_expenses * income_weights[person],
-                timing=person.payment_timing,
-                from_account=available, to_account=None)
+            add_transactions(transactions, transactions_from_timing(
+                person.payment_timing,
+                self.living_expenses * income_weights[person]))
+        for when, value in sorted(transactions.items()):
+            if value != 0:
+                self.add_transaction(
+                    value, timing={when: value},
+                    from_account=available, to_account=None)
 
     @recorded_property_cached
     def living_expenses(self):
-- 
2.43.0


From 8dfb5184cad440840f2845f54d0c0c0c00292ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 69/80] fix: accumulation_function_inverse gives a
 high-precision result in high precision

---
 forecaster/accounts/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 904a7b9..188309f 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -116,11 +116,12 @@ def accumulation_function_inverse(accum, rate, nper=1, *, high_precision=None):
     if nper is None:
         # math.exp(rate * t) throws a warning, since there's an
         # implicit float-Decimal multiplication.
-        timing = math.log(accum, high_precision(math.e)) / rate
+        # (`math.log` always returns `float`, so convert its result.)
+        timing = high_precision(math.log(accum)) / rate
     # Otherwise use the discrete formula: a=(1+r/n)^nt
     # Derive from this t=log(a,1+r/n)/n
     else:
-        timing = math.log(accum, high_precision(1) + rate / nper) / nper
+        timing = high_precision(math.log(accum, 1 + rate / nper)) / nper
 
     return timing
 
-- 
2.43.0


From c8ed8c0ed998373021ff17f943b4b4cb380d13b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 70/80] fix: times and weights of a high-precision Timing have
 the high-precision type

---
 forecaster/utility/timing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index 005fddd..db7b8ce 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -71,6 +71,10 @@ class Timing(dict):
         # be able to receive time-series data of transactions, so we
         # need to deal with negative values.
         elif isinstance(when, dict):
+            if high_precision is not None:
+                when = {
+                    time: high_precision(value)
+                    for time, value in when.items()}
             self.update(_convert_dict(when, high_precision=high_precision))
             return
         else:
@@ -417,6 +421,9 @@ def when_conv(when, *, high_precision=None):
     if when > one or when < zero:
         raise ValueError("When: 'when' must be in [0,1]")
 
+    if high_precision is not None:
+        when = high_precision(when)
+
     return when
 
 # String codes describing frequencies (e.g. annual, bimonthly)
-- 
2.43.0


From 550e327742de2a00d6290cb8ca27037a8c34403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:41 +0000
Subject: [PATCH 71/80] fix: TaxCanadaJurisdiction passes on high_precision

---
 forecaster/canada/tax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index aab744e..552610c 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -30,7 +30,7 @@ class TaxCanadaJurisdiction(Tax):
             ],
             credit_rate=self.constants.TAX_CREDIT_RATE[jurisdiction],
             inflation_adjust=inflation_adjustments,
-            **kwargs)
+            high_precision=high_precision, **kwargs)
 
         self.jurisdiction = jurisdiction
 
-- 
2.43.0


From 3dadd6efe68eed0b6ae6b1064013b4d08e311348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:50 +0000
Subject: [PATCH 72/80] fix: limits on payments of a high-precision Debt have
 the high-precision type

---
 forecaster/accounts/debt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/debt.py b/forecaster/accounts/debt.py
index 4e13510..c1073f9 100644
--- a/forecaster/accounts/debt.py
+++ b/forecaster/accounts/debt.py
@@ -60,8 +60,9 @@ class Debt(Account):
             default_timing=default_timing, **kwargs)
 
         # Set up (and type-convert) Debt-specific inputs:
-        self.minimum_payment = minimum_payment
-        self.accelerated_payment = accelerated_payment
+        self.minimum_payment = self.precision_convert(minimum_payment)
+        self.accelerated_payment = self.precision_convert(
+            accelerated_payment)
 
         # Debt must have a negative balance
         # pylint: disable=invalid-unary-operand-type
-- 
2.43.0


From 16231a30e0f40f3881dfd723e6db9072dd05076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 73/80] fix: payment timings of a high-precision Tax have the
 high-precision type

---
 forecaster/tax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index b886776..a237522 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -279,7 +279,7 @@ class Tax(HighPrecisionOptional):
     @payment_timing.setter
     def payment_timing(self, val):
         """ Sets `payment_timing`. """
-        self._payment_timing = Timing(val)
+        self._payment_timing = Timing(val, high_precision=self.high_precision)
 
     @property
     def refund_timing(self):
@@ -289,7 +289,7 @@ class Tax(HighPrecisionOptional):
     @refund_timing.setter
     def refund_timing(self, val):
         """ Sets `refund_timing`. """
-        self._refund_timing = Timing(val)
+        self._refund_timing = Timing(val, high_precision=self.high_precision)
 
     def marginal_bracket(self, taxable_income, year):
         """ The top tax bracket that taxable_income falls into. """
-- 
2.43.0


From ad5861cb21c7127be8742e73845fffe821cedfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 74/80] fix: refusing to unset a retirement date leaves it as
 it was

---
 forecaster/person.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index ab4c371..c661dbf 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -201,7 +201,6 @@ class Person(TaxSource):
                 Floating retirement dates are not yet implemented.
         """
         if val is None:
-            self._retirement_date = None
             # NOTE: Delete this error when floating retirement dates
             # are implemented
             raise NotImplementedError(
-- 
2.43.0


From 80b8ec625fbd2c2fc56b90bc97b4e7aa112e7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:19 +0000
Subject: [PATCH 75/80] fix: assess people given by an iterator in every
 jurisdiction

---
 forecaster/tax.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index a237522..1179b3d 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -757,6 +757,8 @@ class TaxMulti(object):
 
     def tax_people(self, people, year, deductions=None, credits_=None):
         """ Total tax liability for a group of people. """
+        # (Any iterable is allowed, and each jurisdiction iterates over it)
+        people = tuple(people)
         # Wrap args in defaultdicts to avoid key errors:
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
@@ -769,6 +771,8 @@ class TaxMulti(object):
 
     def tax_spouses(self, people, year, deductions=None, credits_=None):
         """ Tax treatment for a pair of spouses. """
+        # (Any iterable is allowed, and each jurisdiction iterates over it)
+        people = tuple(people)
         # Wrap args in defaultdicts to avoid key errors:
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
@@ -783,6 +787,8 @@ class TaxMulti(object):
             self, income, year, deductions=None, credits_=None):
         """ Determines taxes owing in multiple jurisdictions. """
         # Total tax is simply the sum of federal and prov. taxes.
+        if isinstance(income, collections.abc.Iterable):
+            income = tuple(income)
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
         return sum(
-- 
2.43.0


From a480e9bd6563e3a67563a477f52c1ee0be1a8d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 76/80] fix: rebuild the priority tree when a changed priority
 is set again

---
 forecaster/strategy/transaction/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 39a5dc2..47d1586 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -216,10 +216,8 @@ class TransactionTraversal(HighPrecisionOptional):
     @priority.setter
     def priority(self, val):
         """ Sets priority """
-        if val == self._priority:
-            # Take no action if `priority` is unchanged.
-            return
-        # Otherwise, rebuild the annotated priority tree:
+        # (Even if `val` is the same object as before, since its contents
+        # may have changed)
         self._priority_tree = TransactionNode(val)
         self._priority = val
 
-- 
2.43.0


From 2e9cd2240dd5a4db65532e1593735c0df683e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:40 +0000
Subject: [PATCH 77/80] fix: move an account to its new contributor's plan

Setting RegisteredAccount.contributor only changed the owner named by the
link object: the account stayed in the old contributor's group and was
never added to the new one's (and a link object shared with other
accounts moved all of them). Leave the old group and join the new one.
---
 forecaster/canada/accounts/registered_account.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 0981b7a..cf17b00 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -101,7 +101,11 @@ class RegisteredAccount(LinkedLimitAccount):
     @contributor.setter
     def contributor(self, val):
         """ Sets the `contributor` property. """
-        self.max_inflow_link.owner = val
+        # Leave the old contributor's group of linked accounts and join
+        # the new one's. (Don't mutate the link; it may be shared.)
+        token = self.max_inflow_link.token
+        self.max_inflow_link.unlink_account(self)
+        self.max_inflow_link = self._process_link((val, token))
 
     @recorded_property
     def contribution_room(self):
-- 
2.43.0


From 34fbac30ff65838d872b70ed9d92e3995e528780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:50 +0000
Subject: [PATCH 78/80] fix: show transactions given as inputs when an account
 is read as a dict

An account's `transactions` are those the user gave for the year, if any,
but reading the account itself as a mapping (len, in, iteration, items
and so on) always showed the transactions added to it. Make every view
show `transactions`.
---
 forecaster/accounts/base.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 87de16c..117250a 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -842,49 +842,49 @@ class Account(TaxSource):
 
     # Allow calling code to interact directly with the account as
     # a series of transactions. Implement all `Mapping` methods
-    # to redirect to `_transactions`, except for comparison
+    # to redirect to `transactions`, except for comparison
     # and serialization methods.
     def __len__(self):
-        return len(self._transactions)
+        return len(self.transactions)
 
     def __iter__(self):
-        for transaction in sorted(self._transactions.keys()):
+        for transaction in sorted(self.transactions.keys()):
             yield transaction
 
     def __contains__(self, key):
         when = when_conv(key, high_precision=self.high_precision)
-        return when in self._transactions
+        return when in self.transactions
 
     def __getitem__(self, key):
-        return self._transactions[key]
+        return self.transactions[key]
 
     def __setitem__(self, key, value):
-        if key in self._transactions:
-            del self._transactions[key]
+        if key in self.transactions:
+            del self.transactions[key]
         self.add_transaction(value=value, when=key)
 
     def __delitem__(self, key):
-        del self._transactions[key]
+        del self.transactions[key]
 
     def keys(self):
         """ The timings of the account's transactions. """
-        return self._transactions.keys()
+        return self.transactions.keys()
 
     def values(self):
         """ The values of the account's transactions. """
-        return self._transactions.values()
+        return self.transactions.values()
 
     def items(self):
         """ The account's transactions, as {when: value} pairs. """
-        return self._transactions.items()
+        return self.transactions.items()
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        return self._transactions.get(key, default)
+        return self.transactions.get(key, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-        self._transactions.clear()
+        self.transactions.clear()
 
     # Finally, add some methods for calculating growth (i.e. balance
     # at a future time and time to get to a future balance.)
-- 
2.43.0


From 063e4dcdc353cb777cc0b699207ed27dcb2af4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:20 +0000
Subject: [PATCH 79/80] fix: keep the opening balance when an account's nper
 changes

A year's opening balance is computed when it is first needed, using the
account's present compounding frequency. If nper was set before then,
last year's growth was recomputed at the new frequency, so that the year
didn't open with last year's closing balance. Determine the opening
balance before changing nper.
---
 forecaster/accounts/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 117250a..ae8ba79 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -339,6 +339,10 @@ class Account(TaxSource):
 
     @nper.setter
     def nper(self, value):
+        # The opening balance depends on last year's growth, so make sure
+        # it's determined before the compounding frequency changes:
+        if hasattr(self, '_nper'):
+            _ = self.balance
         # Convert strings to either a number or float
         value = frequency_conv(value)
         # Convert non-None values to high-precision, if enabled:
-- 
2.43.0


From 79877aa083acab75f03a634003b36b1a99d5a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:25 +0000
Subject: [PATCH 80/80] fix: don't let inferred brackets outlast added ones

Tax remembers the brackets it infers for a year, so adding another year's
brackets via add_brackets did not affect any year that had been asked
about before. Forget inferred brackets when brackets are added (and don't
infer brackets from inferred ones).
---
 forecaster/tax.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 1179b3d..98300c4 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -163,6 +163,8 @@ class Tax(HighPrecisionOptional):
         # generate an entry in `accum` for each new bracket:
         self._accum = {}
         self._tax_brackets = {}
+        # Brackets (and accum) inferred for other years on demand:
+        self._inferred_brackets = {}
         for year in tax_brackets:
             self.add_brackets(tax_brackets[year], year)
 
@@ -197,7 +199,11 @@ class Tax(HighPrecisionOptional):
         # but this will cause problems if you want to reuse the
         # Tax object for other Scenarios. If we keep this behaviour,
         # then Tax objects should be treated as mutable/disposable.
-        if year not in self._tax_brackets:
+        if year in self._tax_brackets:
+            brackets = self._tax_brackets[year]
+        elif year in self._inferred_brackets:
+            brackets = self._inferred_brackets[year]
+        else:
             # Get the inflation-adjusted tax brackets for this year:
             base_year = nearest_year(self._tax_brackets, year)
             brackets = {
@@ -205,15 +211,16 @@ class Tax(HighPrecisionOptional):
                 self._tax_brackets[base_year][key]
                 for key in self._tax_brackets[base_year]
             }
-            self.add_brackets(brackets, year)
+            self._inferred_brackets[year] = brackets
+            self.add_accum(brackets, year)
         if bracket is None:
-            return self._tax_brackets[year]
-        return self._tax_brackets[year][bracket]
+            return brackets
+        return brackets[bracket]
 
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
         # If we don't have this accum, we'll need to generate it.
-        # add_brackets() does this for us.
+        # tax_brackets() does this for us.
         if year not in self._accum:
             # Get the inflation-adjusted tax brackets for this year:
             self.tax_brackets(year)
@@ -311,6 +318,11 @@ class Tax(HighPrecisionOptional):
         Also generates an `accum` dict based on the tax brackets.
         """
         year = int(year)
+        # Brackets inferred for other years may need to change:
+        for inferred_year in self._inferred_brackets:
+            del self._accum[inferred_year]
+        self._inferred_brackets.clear()
+
         self._tax_brackets[year] = brackets
 
         self.add_accum(brackets, year)
-- 
2.43.0

