#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["forecaster/" + f for f in files],
         "mechanism": [{"name": n, "where": "forecaster/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "forecaster/" + w} for n, m, w in state]
    a["observe_at"] = observe or ["public API return values"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Yearly records are append-only and complete",
 "Every recorded quantity of a year-by-year object (account, debt, person, part of a forecast) keeps, for each completed year, the value it had when that year was closed: no later call changes, drops or adds an entry for a completed year. Advancing one year closes exactly the current year for every recorded quantity, so each record covers every year from the first to the current one without gaps. A value the user supplied for a year is the value reported and recorded for that year, and setting or recomputing the quantity in that year does not displace it.",
 ["histories", "inputs"], "every sequence of reads, writes, cache clears and year advances, every set of user-supplied values",
 "Tests advance one or two years on fixed fixtures and look at one property; append-only is a statement about all histories of operations.",
 ["ledger/base.py", "ledger/recorded_property.py", "accounts/base.py", "person.py", "forecast/subforecast.py"],
 [("Ledger.next_year", "ledger/base.py"), ("recorded_property / recorded_property_cached", "ledger/recorded_property.py")],
 [("history", "per-quantity map year -> value", "ledger/recorded_property.py")])

prop("C02", "Account balances follow growth and transactions exactly",
 "At any point in a year an account's balance is its opening balance grown at its rate and compounding frequency plus every earlier or simultaneous transaction grown from its own time; the year's returns are the closing balance less the opening balance and the net transactions. The next year opens with exactly the previous year's closing balance and no transactions. The time reported for reaching a target balance is a time, not before the requested one, at which the balance is that target.",
 ["histories", "inputs"], "all opening balances, rates (negative too), compounding frequencies incl. continuous, transaction sequences and years",
 "Tests use a handful of rates and transactions on one or two dates.",
 ["accounts/base.py", "accounts/util.py"],
 [("balance_at_time / returns / next_year", "accounts/base.py"), ("accumulation functions", "accounts/util.py")])

prop("C03", "Account limits bound every generated set of transactions",
 "Inflows and outflows proposed for an account never take the year's total flow past the account's maximum or fall short of its minimum, and proposed outflows are never positive nor inflows negative. Without other limits, proposed outflows at the given times are the largest ones, in proportion to the given timing, that the balance allows, so that applying them brings the balance at the last time to zero and a request for a target balance brings it to the target. A proposal never changes the account.",
 ["inputs", "histories"], "all account states, timings, transaction limits, balance limits and pre-existing or hypothetical transactions",
 "Tests check single-point timings and a few mixed ones.",
 ["accounts/base.py"],
 [("max_inflows/min_inflows/max_outflows/min_outflows/transactions_to_balance", "accounts/base.py")])

prop("C04", "Debts are never overpaid nor used as a source of cash",
 "A debt's balance is never positive at the start, and payments proposed for it never take the debt above zero, never exceed the minimum payment plus the allowed accelerated payment, and include at least the minimum payment whenever that much is owed. A debt never offers an outflow. Payments already made in the year count against these amounts.",
 ["inputs", "histories"], "all debt balances, rates, minimum and accelerated payments, timings, prior payments, years",
 "Tests cover a few single-payment debts.",
 ["accounts/debt.py", "accounts/base.py"],
 [("Debt limits", "accounts/debt.py")])

prop("C05", "Linked accounts share one limit per direction",
 "Accounts linked to the same owner and token see one shared limit: a change through any of them is visible to all and to no other group, for inflow and outflow limits and minimums independently. The shared limit bounds the group's total transactions: whatever one member has used is no longer offered to any member. Membership is by owner and token, and each account belongs to exactly the groups it was linked to.",
 ["histories", "inputs"], "all sequences of linking, limit changes and transactions across groups and owners",
 "Tests link two accounts on the inflow side only.",
 ["accounts/link.py", "accounts/linked_limit.py"],
 [("AccountLink registry", "accounts/link.py"), ("LinkedLimitAccount limits", "accounts/linked_limit.py")],
 [("link record", "per owner and token: shared value and group", "accounts/link.py")])

prop("C06", "Contribution room accrues and rolls over once per year per contributor",
 "A contributor's room in a registered plan next year is this year's unused room plus this year's accrual (and, for tax-free savings, plus this year's withdrawals), computed once no matter how many accounts share the plan or in what order they advance. All accounts of one plan and contributor always report the same room, and members are advanced to the same year together. Deposits offered never exceed the remaining room of the plan.",
 ["histories", "inputs"], "all contributors' incomes and ages, account groups, orders of advancing, deposits and withdrawals",
 "Tests use one or two accounts, one order and a few incomes.",
 ["canada/accounts/registered_account.py", "canada/accounts/rrsp.py", "canada/accounts/tfsa.py"],
 [("RegisteredAccount.next_year", "canada/accounts/registered_account.py"), ("RRSP.next_contribution_room", "canada/accounts/rrsp.py"), ("TFSA.next_contribution_room", "canada/accounts/tfsa.py")])

prop("C07", "Retirement plan conversion forces minimum withdrawals and correct tax facts",
 "A registered retirement plan accepts no new room after the mandatory age and, once converted (never later than the mandatory year), requires each year at least the age-based minimum fraction of its opening balance to be withdrawn, and none before. Its taxable income is exactly its withdrawals and its tax deduction exactly its deposits. Tax withheld at source is the bracketed rate on withdrawals, excluding the mandatory minimum after conversion, and is never negative.",
 ["histories", "inputs"], "all ages, conversion years, balances, withdrawals and deposits over the years",
 "Tests check single years around conversion.",
 ["canada/accounts/rrsp.py", "canada/constants.py"],
 [("RRSP.minimum_distribution / convert_to_rrif / tax_withheld", "canada/accounts/rrsp.py")])

prop("C08", "Adjusted cost base and capital gains follow the transaction sequence",
 "A taxable account's cost base grows by each deposit and by reinvested growth only as deposited, and falls on each withdrawal by the same fraction as the balance does; the gain realised in a year is the sum over withdrawals of amount withdrawn less cost base given up. The cost base carries over from year to year and half the realised gain is taxable. User-supplied figures for a year are used in that year.",
 ["histories", "inputs"], "all sequences of deposits and withdrawals within and across years, rates and opening positions",
 "Tests use one deposit and one withdrawal.",
 ["canada/accounts/taxable_account.py"],
 [("TaxableAccount.acb / capital_gain", "canada/accounts/taxable_account.py")])

prop("C09", "Income tax is the inflation-indexed bracket function of taxable income",
 "For every year, tax on an amount is the sum over brackets of the bracket's rate times the part of the amount inside it, with thresholds, deductions and credits taken from the nearest given year and indexed to the requested year, and rates never indexed. Tax is zero without income, never negative, and never decreases with income, and the marginal bracket and rate agree with it. The answer for a year does not depend on which years or functions were asked for before.",
 ["inputs", "histories"], "all bracket tables over several years, incomes, indexation and orders of queries",
 "Tests query a few incomes in one order with a fixed table.",
 ["tax.py", "utility/inflation.py"],
 [("Tax.tax_brackets/accum/marginal_bracket/__call__", "tax.py")])

prop("C10", "Household tax is the sum of its parts, with each relief counted once",
 "The tax of a group of people is the sum of each person's tax, with spouses assessed together exactly once whatever the order or grouping. Each person's tax uses the income and reliefs of that person and of the accounts they own, every deduction and credit counted exactly once; figures the user supplied for a person or account replace the computed ones, and reliefs passed to the assessment are added on top. Tax over several jurisdictions is the sum of the taxes of each.",
 ["inputs", "configurations"], "all groups of people, spouses, accounts, overrides, jurisdictions",
 "Tests use a couple of people with simple accounts.",
 ["tax.py", "person.py"],
 [("Tax.tax_people/tax_person/tax_spouses", "tax.py"), ("TaxMulti", "tax.py"), ("Person.taxable_income etc.", "person.py")])

prop("C11", "Canadian credits depend on status and income as legislated in the tables",
 "In each Canadian jurisdiction the spousal credit is the credit rate times the spousal amount less the spouse's net income (taxable income less deductions), never negative and never more than the spousal amount; it goes to the spouse with the higher net income, to exactly one of two with the same, and to none without a spouse. The pension credit is the credit rate times the year's retirement account withdrawals up to the pension amount. Total Canadian tax is federal plus provincial for the same people and year, and evaluating it changes nothing that the caller passed in.",
 ["inputs", "configurations"], "all couples, incomes, ages, withdrawals, years and provinces in the tables",
 "Tests use one couple.",
 ["canada/tax.py", "canada/constants.py"],
 [("TaxCanadaJurisdiction credits", "canada/tax.py")])

prop("C12", "Timings turn scalars and cash flows into well-formed schedules",
 "A timing spreads a scalar over its times in proportion to its weights so that the parts add up to the scalar, and normalised weights add up to one. A timing built from cash flows with positive total offers withdrawals only at times and in amounts that never drive the running total below zero and that add up to that total; one with negative total asks for contributions at or before they are needed, adding up to the shortfall. Timings from a frequency have one equal part per period, at the requested point of each period, within the year.",
 ["inputs"], "all frequencies, points in the period, and cash flow sequences",
 "Tests use short hand-made sequences.",
 ["utility/timing.py"],
 [("Timing conversions", "utility/timing.py")])

prop("C13", "Allocating money over accounts respects every limit and uses all it can",
 "When money is allocated over accounts, the total moved never exceeds what is available, and no account, group of linked accounts or node of the priority tree moves more than its limit in that direction. Minimum flows are met first as far as money allows. Money is left over only when every account is at a limit.",
 ["inputs", "configurations"], "all priority trees (ordered, weighted, nested), limits, links, timings and amounts, deposits and withdrawals",
 "Tests use a few hand-built trees.",
 ["strategy/transaction/base.py", "strategy/transaction/graph.py", "strategy/transaction/node.py"],
 [("TransactionTraversal", "strategy/transaction/base.py"), ("min-cost flow graph", "strategy/transaction/graph.py")])

prop("C14", "Allocation follows the order and the weights of the priority tree",
 "In an ordered list, a later member receives money beyond its minimum only when every earlier member can take no more. In a weighted group, money is shared in proportion to the weights among the members that have not reached a limit. The result does not depend on the order in which equivalent members are stored.",
 ["inputs", "configurations"], "all priority trees, limits and amounts",
 "Tests use a few hand-built trees.",
 ["strategy/transaction/base.py", "strategy/transaction/graph.py"],
 [("TransactionTraversal", "strategy/transaction/base.py")])

prop("C15", "Strategies group accounts and order debts as named",
 "Ordered strategies fill account types in the order of their weights and weighted ones in proportion, an account being matched to its own type or else its nearest listed ancestor, and accounts matching nothing receive nothing. Debt repayment meets all minimum payments first and then follows highest interest rate first (avalanche) or smallest balance first (snowball). Debts at or above the high-interest threshold are repaid before any discretionary deposit elsewhere.",
 ["inputs", "configurations"], "all sets of accounts, types, weights, rates, thresholds and amounts",
 "Tests use small fixed sets.",
 ["strategy/transaction/strategy.py", "strategy/debt_payment/base.py", "strategy/debt_payment/util.py"],
 [("TransactionStrategy", "strategy/transaction/strategy.py"), ("DebtPaymentStrategy", "strategy/debt_payment/base.py")])

prop("C16", "Money moved within a forecast is conserved and can be undone",
 "Every movement recorded by a part of a forecast takes from one side exactly what it gives to the other, at the same time, in proportion to its timing. Unless strict timing is asked for, a movement happens at the earliest time, not before the requested one, at which the source can pay without going negative then or later, and at the requested time if there is none; the pieces of one movement are made from the earliest to the latest. Undoing restores every account and the cash pool, and calling a part again in the same year has the same effect as calling it once.",
 ["histories", "inputs"], "all sequences of movements, undo and re-calls, over dicts and accounts",
 "Tests use a few transactions; re-call is tested for one call.",
 ["forecast/subforecast.py"],
 [("SubForecast.add_transaction / undo_transactions", "forecast/subforecast.py")])

prop("C17", "Forecast parts report what they moved",
 "Net income, expenses, contributions, debt repayments, withdrawals, withholding and tax adjustment reported for a year equal the cash actually moved by that part in that year, and contributions, repayments and withdrawals do not overlap. After each part, cash available over the year has changed by exactly its reported net figure.",
 ["inputs", "histories"], "all people, accounts, strategies and years",
 "Tests use stubs and one year.",
 ["forecast/income.py", "forecast/living_expenses.py", "forecast/saving.py", "forecast/withdrawal.py", "forecast/tax.py"],
 [("IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast", "forecast/")])

prop("C18", "A forecast carries cash and tax from year to year without loss",
 "A year starts with exactly the cash left at the end of the previous year, plus the previous year's tax adjustment at the refund or payment time, and its other flows are those of its parts, run in order. People, accounts and every part of the forecast are in the same year at every step, and each is advanced exactly once per year. Each year's principal, contributions, withdrawals, tax and returns reconcile: closing wealth is opening wealth plus returns plus net flows.",
 ["histories", "inputs", "configurations"], "all forecasts of any length over any people, accounts, debts and strategies",
 "Tests run a few years with fixed amounts.",
 ["forecast/base.py"], [("Forecast", "forecast/base.py")])

prop("C19", "Living expenses follow the chosen strategy and are never negative",
 "Living expenses in a year are the value of the chosen rule - constant real amount, income less constant contribution, share of gross or net income, base plus share of growth, or share of principal or income at retirement, each indexed from its reference year - and never less than zero. With a working-life and a retirement rule the first applies up to and including the retirement year and the second afterwards, and never less than the minimum rule gives.",
 ["inputs", "configurations"], "all rules, amounts, rates, indexation functions, people and years",
 "Tests use one set of amounts per rule.",
 ["strategy/gross_transaction.py"], [("LivingExpensesStrategy, LivingExpensesStrategySchedule", "strategy/gross_transaction.py")])

prop("C20", "Asset allocations are always feasible and sum to one",
 "For every age and strategy the shares of stocks, bonds and other assets add up to one and stocks stay within the configured minimum and maximum. The glide path is the named rule: a constant less age, or a straight line to a constant at retirement, taking the risk adjustments into account. A portfolio's rate of return is the allocation-weighted mean of the asset returns of that year.",
 ["inputs", "configurations"], "all ages, targets, bounds, retirement ages and rates",
 "Tests sample a few ages.",
 ["strategy/allocation.py"], [("AllocationStrategy, RateFunction", "strategy/allocation.py")])

prop("C21", "Scenario growth factors compose and invert",
 "The accumulation and inflation factor between two years is the product of the yearly rates between them: it is one for equal years, the factor from a to c is that from a to b times that from b to c, and reversing the years inverts it. A scenario covers exactly its years. Figures given per year and per constant rate agree.",
 ["inputs"], "all initial years, lengths, rate sequences and pairs of years",
 "Tests use constant or short sequences.",
 ["scenario.py"], [("Scenario.accumulation_function / inflation_adjust", "scenario.py")])

prop("C22", "Figures given for some years extend to every year by indexation",
 "A value for a year that is not listed is taken from the latest listed earlier year, or failing that the earliest later one, and multiplied by the inflation factor from that year to the requested one; listed years are returned unchanged and an empty table gives nothing. This holds for single figures and for tables of figures, and does not change the table.",
 ["inputs"], "all tables, target years and indexation functions",
 "Tests use a few years.",
 ["utility/inflation.py"], [("nearest_year, extend_inflation_adjusted, build_inflation_adjust", "utility/inflation.py")])

prop("C23", "Planning runs are independent of each other and repeatable",
 "Running a forecast never changes the people, accounts, debts, settings or scenario the user supplied, and running it again gives the same figures. Copies made for a run preserve every relation between the objects - owners, spouses, shared accounts and links - without sharing with the originals. Explicit parameters override settings, and parts built for a run share one instance of each common parameter.",
 ["histories", "configurations"], "all plans, repeated and interleaved runs, parameter overrides",
 "Tests run once and compare a few fields.",
 ["forecaster.py"], [("Forecaster.run_forecast / build_param / get_param", "forecaster.py")])

prop("C24", "Settings files round-trip without loss",
 "Writing settings or constants to a file and reading them back yields equal values: strings, numbers, booleans, nested tables, and year or number keys, and in high-precision mode every digit. (A string that spells a number is read as that number, unless conversion is off.) Attributes reflect the values read, can be overridden per object without affecting the file values or other objects, and fall back to the defaults when deleted.",
 ["inputs", "histories"], "all JSON-like value trees, read-write-override sequences",
 "Tests use one short dict.",
 ["value_reader.py", "settings.py"], [("ValueReader, ValueReaderAttribute, HighPrecisionJSONEncoder", "value_reader.py")])

prop("C25", "People's ages, incomes and relations stay consistent over the years",
 "A person's age on a date is the number of full years since birth. Gross income of a year is the previous year's increased by that year's raise rate, through the year of retirement, and zero in the years after it; net income is gross income less the tax withheld. Two spouses always refer to each other and nobody else, and a person's accounts are exactly those whose owner they are; a rejected change leaves all of these as they were.",
 ["histories", "inputs"], "all birth and retirement dates, raise rates, marriages and years",
 "Tests use a few dates.",
 ["person.py"], [("Person", "person.py")])

prop("C26", "High-precision mode gives the same plan, and objects do not leak into each other",
 "When numbers are given in a high-precision type (or as whole numbers), every computation of people, accounts, taxes, strategies and forecasts yields that type or whole numbers, never ordinary ones, and agrees with the same plan in ordinary numbers up to rounding (up to the smallest amount that is divided, where money is shared between accounts). Two objects of the same class, an object and its copy included, never share number-valued parameters: setting one leaves the other unchanged, and a parameter read is the last value set, in the type the object has then.",
 ["inputs", "configurations"], "all objects and parameter values in both modes",
 "Tests compare a few Decimal results on single objects.",
 ["utility/precision.py"], [("HighPrecisionOptional", "utility/precision.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
