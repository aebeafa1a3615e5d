#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a generator only so that the text is easy to edit)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
I = ["inputs"]; IH = ["inputs", "histories"]; IC = ["inputs", "configurations"]; IF = ["inputs", "histories", "fault_sequences"]

p("A01", "Compounding conventions are invertible and normalised",
  "For every compounding convention (simple, continuous, periodic with any positive frequency), turning a rate into a discount factor and back returns the same rate, and turning a discount factor into a rate and back returns the same discount factor, wherever both are defined. The discount factor is one at zero rate and at zero maturity, discount factors over positive maturities fall when the rate rises, and the annual, semi-annual, quarterly, monthly and daily conventions are the periodic one with 1, 2, 4, 12 and 365 periods.",
  I, "all real rates, maturities, discount factors and frequencies for which the formulas are defined",
  "The tests evaluate a handful of rates and maturities; an inverse pair must agree at every point, including negative rates and fractional maturities.",
  ["dcf/compounding.py"], [("rate/discount factor pairs", "dcf/compounding.py")])
p("A02", "Default year fraction is an additive signed measure of time",
  "The default year fraction is zero from a point in time to itself, changes its sign when start and end are swapped, adds up over adjacent periods and is positive when the end lies after the start. For plain numbers it is their difference; for calendar dates and for business dates alike it is the number of calendar days between them divided by 365.25.",
  I, "all numbers, dates and business dates",
  "Tests look at a few sample dates; the accrual logic of every product relies on additivity for all of them.",
  ["dcf/daycount.py"], [("default day count", "dcf/daycount.py:day_count")])

p("B01", "Interpolations reproduce the given points in any input order",
  "Every interpolation built from distinct points returns exactly the given value at each given point (up to rounding for the logarithmic ones, which require positive values and refuse others), whatever order the points are supplied in, and also when it is built from a mapping of points to values. It reports membership for exactly the given points (a given point at zero excepted for the rate variants).",
  I, "every finite set of distinct points (any number of them, any order) and every kind of interpolation: none, zero, left, constant, right, nearest, linear, log-linear, log-linear in rates, log-constant in rates",
  "Tests use sorted lists of three or four points; the guarantee is for every number of points and every order.",
  ["dcf/interpolation.py"], [("sorting of points on construction", "dcf/interpolation.py:base_interpolation._update"), ("evaluation of each interpolation", "dcf/interpolation.py")])
p("B02", "Interpolations follow their rule between and beyond the points",
  "Between two neighbouring points and beyond the outermost ones, left/constant returns the value of the last point not after the argument (the first value before all points), right the value of the first point not before it (the last value after all points), nearest the value of a closest point (the left one on ties), linear the value on the straight line through the two neighbouring points (the outermost two when extrapolating), and the two no-fill variants nothing respectively zero. Log-linear interpolates linearly in the logarithm of the values; the rate variants interpolate the logarithm divided by the argument linearly respectively left-constantly, and give one at argument zero unless a point at zero is given.",
  I, "all arguments and all point sets of any size (one point included)",
  "Tests sample a few arguments on a three point grid; the rule has to hold in every segment of grids of any size, at single-point grids and on both extrapolation sides.",
  ["dcf/interpolation.py"], [("bisection based evaluation", "dcf/interpolation.py")])
p("B03", "Piecewise schemes hand each argument to the right part",
  "A piecewise interpolation scheme evaluates its left part strictly before the smallest given point, its right part strictly after the largest one and its middle part everywhere else, each part being built from all the given points. A single interpolation replaces the middle part, a pair gives the middle part and both outer parts, a triple gives left, middle and right; unequal numbers of points and values or repeated points are refused.",
  IC, "all schemes composed of the available interpolations, all point sets, all arguments",
  "Tests exercise the predefined schemes at a few arguments; the boundaries decide which extrapolation a price uses.",
  ["dcf/interpolation.py"], [("dispatch", "dcf/interpolation.py:interpolation_scheme.__call__"), ("scheme set-up", "dcf/interpolation.py:interpolation_scheme.__init__")])

p("C01", "Curves reproduce their points whatever the input order",
  "A curve, and a date curve with a given origin, returns at each of its points the value supplied for that point, and is the same function for every order in which the points are supplied, over numbers, dates and business dates. Asking for a list of arguments returns the values of the single arguments, subscripting returns a point's value and refuses arguments that are no curve point, and inputs of unequal length are refused.",
  I, "all finite point sets of any size, every order, every time type",
  "Unit tests build curves from a few sorted points.",
  ["dcf/curves/curve.py", "dcf/interpolation.py"], [("sorted construction", "dcf/curves/curve.py:Curve._update"), ("time conversion", "dcf/curves/curve.py:DateCurve._update")])
p("C02", "Assigning a curve point changes that point and nothing else",
  "After assigning a value to a point of a curve (an existing point or a new one, before, between or after the others), the curve returns that value there, the previous value at every other point, and keeps its origin. Any sequence of assignments on a curve without spread and fixings leaves the curve equal, as a function, to one built from the final points with the same origin.",
  ["inputs", "histories"], "all curves, all assignment histories, all evaluation points, every time type",
  "Tests assign a few points at the end of a sorted grid; histories of assignments are unbounded.",
  ["dcf/curves/curve.py"], [("point assignment", "dcf/curves/curve.py:Curve.__setitem__")])
p("C03", "Curve arithmetic is pointwise on the union of the grids",
  "The sum, difference, product and quotient of two curves with the same origin is a curve on the union of both grids whose value at each of these grid points is the sum, difference, product or quotient of the values of the operands there; division is refused if the divisor vanishes at one of them. The operands are unchanged, and for date curves the result keeps origin and day count of the first operand.",
  I, "all pairs of curves on arbitrary overlapping or disjoint grids",
  "Tests add and multiply a pair of short curves on similar grids.",
  ["dcf/curves/curve.py"], [("operators", "dcf/curves/curve.py:Curve.__add__ ff."), ("date operators", "dcf/curves/curve.py:DateCurve.__add__ ff.")])
p("C04", "Date curves depend on time only through year fractions from origin",
  "The value of a date curve at a date is the interpolation of its values over the year fractions from the origin to its points, evaluated at the year fraction from the origin to that date, using the day count function the curve was given or the default one; the origin is the given one (also if it is zero) or else the first point. A fixing, if one is set for exactly that date, takes precedence and affects no other date.",
  IC, "all dates, origins (before, between, after the points), day counts and fixings",
  "Tests use default day count and the first point as origin.",
  ["dcf/curves/curve.py"], [("time conversion", "dcf/curves/curve.py:DateCurve.day_count"), ("fixings", "dcf/curves/curve.py:DateCurve.__call__")])

p("D01", "Discount factors and survival probabilities chain over time",
  "On curves storing discount factors, zero rates, survival or default probabilities or flat intensities, the factor from a date to itself is one and the factor over a period equals the product of the factors over any split of it. With the start omitted the factor starts at the origin; this holds for any dates before, between and after the curve points, in particular if one of them equals the origin.",
  I, "all curve data (positive factors, normalised to one at the origin), all triples of dates, every time type, dates equal to but not identical with the origin",
  "Tests sample a few date pairs and mostly pass the origin object itself.",
  ["dcf/curves/interestratecurve.py", "dcf/curves/creditcurve.py", "dcf/curves/curve.py"], [("factor from factors", "DiscountFactorCurve._get_compounding_factor"), ("factor from rates", "RateCurve._get_compounding_factor"), ("forward zero rate", "ZeroRateCurve._get_compounding_rate")])
p("D02", "Discount factor, zero rate and cash rate are mutually consistent",
  "On every interest rate curve and any two distinct dates, discount factor, zero rate and cash rate satisfy factor = exp(-zero rate x year fraction) and factor x (1 + cash rate x year fraction) = 1; an omitted cash rate end date is the start plus the given step or else the forward tenor, and a contradicting end and step are refused. The quantity a curve stores is returned at each of its points: discount factors and zero rates from the origin, short rates at the date and cash rates over the forward tenor.",
  I, "all curve types, data, date pairs and tenors",
  "Tests compare a few sampled values per curve type.",
  ["dcf/curves/interestratecurve.py", "dcf/curves/curve.py", "dcf/compounding.py"], [("compounding relation", "RateCurve._get_compounding_factor/_get_compounding_rate"), ("cash rate", "InterestRateCurve._get_cash_rate"), ("storage", "curve subclasses")])
p("D03", "Swap annuity sums discounted periods; short rates are piecewise zero rates",
  "The swap annuity of a date schedule is the sum over consecutive schedule periods of the year fraction of the period times the discount factor from the origin to the period end. The short rate of curves storing discount factors or zero rates at a date between two neighbouring curve points is the zero rate between these two points, the right neighbour being strictly after the date, and before the first point it is the short rate at the first point.",
  I, "all schedules of any length, all curves and dates",
  "No test evaluates an annuity; short rates are sampled on one curve.",
  ["dcf/curves/interestratecurve.py"], [("annuity", "InterestRateCurve.get_swap_annuity"), ("short rate", "InterestRateCurve._get_short_rate")])
p("D04", "Casting a curve keeps what it says at its points",
  "Turning a rate curve over business dates, or any rate curve onto a given grid, into another type of the same family (discount factors or zero rates; survival or default probabilities or flat intensities) yields a curve with the same origin and day count whose factors from the origin to each of the original points, respectively to each point of that grid, agree with those of the original. The original curve is unchanged.",
  IC, "all curve data, all pairs of types, explicit or implicit origins, default or own day counts, own or new grids",
  "Tests cast a few curves with implicit origin and default day count.",
  ["dcf/curves/curve.py", "dcf/curves/interestratecurve.py", "dcf/curves/creditcurve.py"], [("cast on construction", "RateCurve.__init__ and subclasses"), ("stored quantity", "_get_storage_value")])
p("D05", "A spread shifts a rate curve and removing it restores the curve",
  "While a spread curve is attached to a rate curve, the value of the curve at any date is its own value plus the value of the spread curve there, and rates derived from it use that value; after removing the spread all values are what they were before. A second spread cannot be attached before the first is removed, and reading never changes the curve.",
  IH, "all curves, spreads, dates and attach/detach sequences",
  "Tests attach one constant spread.",
  ["dcf/curves/curve.py"], [("spread", "RateCurve.spread / RateCurve.__call__")])
p("D06", "Credit curves keep probabilities, intensities and hazards consistent",
  "On every credit curve survival probability and intensity over a period satisfy probability = exp(-intensity x year fraction), and for stored probabilities the survival probability from the origin to a curve point is the stored one (one minus the stored one for default probabilities), with inputs outside zero and one clipped into that range. Hazard rates of probability and intensity curves are the intensity between the neighbouring curve points; survival probabilities of curves with non-negative hazard rates stay in [0, 1] and do not increase with the period end.",
  I, "all credit curve types, data and date pairs",
  "Tests sample few dates per type.",
  ["dcf/curves/creditcurve.py", "dcf/curves/curve.py"], [("probabilities", "ProbabilityCurve and subclasses"), ("hazard", "CreditCurve._get_hazard_rate")])
p("D07", "Short rate and hazard rate curves integrate their daily rates",
  "On a curve storing short rates or hazard rates over business dates, the zero rate or intensity over a period times its year fraction is the sum of the daily curve values times the year fraction of each day of the period, so factors chain over any split of a period into ordered dates. At coinciding dates it is the curve value at that date.",
  I, "all curve data and ordered date triples, periods of any number of days",
  "The day loop runs over arbitrarily many days; tests run it on a few periods.",
  ["dcf/curves/interestratecurve.py", "dcf/curves/creditcurve.py"], [("day loop", "ShortRateCurve._get_compounding_rate"), ("day loop", "HazardRateCurve._get_compounding_rate")])

p("E01", "Forward curves reproduce prices and grow at the yield beyond the last one",
  "A forward price curve returns each given price at its date and positive prices in between; after the latest date it returns the price at that date divided by the discount factor of the yield between the two dates: exp(-y x year fraction) for a constant yield, the discount factor of a given rate curve, one if no yield is given. This holds after any assignment of points and for a curve given by a single spot price.",
  IH, "all price data, yields, dates and assignment histories",
  "Regression tests record one set of values.",
  ["dcf/curves/curve.py"], [("extrapolation", "ForwardCurve.get_forward_price")])
p("E02", "Exchange rates are reciprocal and triangulate",
  "For all currencies added to an exchange rate container, at every date the forward rate of a pair times that of the reverse pair is one, and at the origin the rate of a pair is the product of its rates via the base currency, also after adding further currencies or adding a currency again with a new rate. Beyond the last given rate the forward rate of a pair moves with the ratio of the discount factors of the two currencies, and subscripting with one currency returns exactly the curves of that currency.",
  IH, "all histories of adding currencies, all positive rates, all curves and dates",
  "Tests add a few currencies once and look at the origin.",
  ["dcf/curves/fx.py"], [("triangulation", "FxContainer.add"), ("fx forward", "FxForwardCurve.get_forward_price")])
p("E03", "Terminal volatilities have additive total variance",
  "On a terminal volatility curve without floor the squared forward volatility over a period starting after the origin times its year fraction is the difference of total variances (squared volatility times year fraction from the origin) of its end and start, so total variance adds up over any split; a negative difference is refused. With a floor the result is the larger of that volatility and the floor, and the floor if the difference is negative; a reversed period gives zero, and over a period starting at the origin it is the curve value at its end.",
  I, "all volatility data, date triples and floors",
  "Tests sample a few periods.",
  ["dcf/curves/volatilitycurve.py"], [("forward variance", "TerminalVolatilityCurve.get_terminal_vol")])

p("F01", "Cashflow lists look up, zero-fill and aggregate amounts exactly",
  "A cashflow list with distinct payment dates returns each given amount at its date and zero at any other date, a single number standing for that amount at every date, and keeps its dates in order; unequal lengths are refused. A list of legs pays on exactly the union of the dates of its legs, at each date the sum of what the legs pay there, and starts at the earliest origin of its legs.",
  I, "all date lists, amounts and numbers of legs",
  "Tests look at one or two short lists.",
  ["dcf/cashflows/cashflow.py"], [("lookup", "CashFlowList.__getitem__"), ("aggregation", "CashFlowLegList")])
p("F02", "Interest cashflows pay notional x year fraction x (fixed + forward rate)",
  "Each cashflow of a rate cashflow list pays its notional times the year fraction of its accrual period times the sum of fixed rate and forward rate, the forward rate (zero if there is no forward curve) being read at the period start less the fixing offset and the year fraction taken by the given day count or the default one. Accrual periods end at the payment date less the pay offset, each further period starts where the previous one ends, and without pay offset the first starts at the given origin (also if it is zero) or, without origin, one regular step before the first date.",
  I, "all schedules of any length, notionals, rates, offsets, forward curves and day counts",
  "Tests value a few regular schedules starting at one origin.",
  ["dcf/cashflows/cashflow.py", "dcf/cashflows/payoffs.py"], [("period generation", "RateCashFlowList.__init__"), ("payoff", "RateCashFlowPayOff.details")])
p("F03", "Collared rate cashflows pay the capped and floored rate",
  "Valued with an intrinsic model, a collared rate cashflow pays notional x year fraction x (max(K, min(f, L)) + c) for floor strike K at most cap strike L, forward rate f and fixed rate c, a missing strike meaning no floor or no cap. Under any option model it equals the uncollared cashflow plus the floorlet minus the caplet value at its fixing date, and in a list its accrual periods are those of an uncollared rate cashflow list.",
  I, "all strikes (also zero), rates of any sign, notionals, offsets and models",
  "Tests record values for one strike pair.",
  ["dcf/cashflows/payoffs.py", "dcf/cashflows/contingent.py"], [("collar", "ContingentRateCashFlowPayOff.details"), ("period generation", "ContingentRateCashFlowList.__init__")])
p("F04", "Option cashflows pay notional x option value, strategies the sum",
  "An option cashflow pays its notional times the call or put value of the model at its expiry and strike (at the money without strike, nothing without model), the expiry being the payment date less pay and fixing offset. An option strategy pays the sum of its options' payoffs whatever the order of strikes, with a single notional standing for all options of that kind, and every date of a strategy list carries the same strategy.",
  I, "all strikes, notionals, flags, offsets, numbers of options and models",
  "Tests evaluate one butterfly and few options.",
  ["dcf/cashflows/payoffs.py", "dcf/cashflows/contingent.py"], [("option payoff", "OptionCashFlowPayOff.details"), ("strategy payoff", "OptionStrategyCashFlowPayOff"), ("lists", "OptionCashflowList, OptionStrategyCashflowList")])

p("G01", "Put-call parity holds for values and sensitivities",
  "For every (non-binary) option payoff model the call value less the put value equals forward less strike at every expiry and strike, also without volatility, at expiry and at the money. Likewise put delta equals call delta less one delta unit, and put gamma, vega and theta equal those of the call, for analytic and for numerical sensitivities.",
  I, "all models, expiries, strikes, forwards, volatilities",
  "Tests check parity at few sampled points of few models.",
  ["dcf/models/optionpricing.py"], [("parity", "OptionPayOffModel.get_put_value ff.")])
p("G02", "Options without volatility or time are worth their intrinsic value",
  "If the volatility is zero or the time to expiry is zero, a call is worth max(forward - strike, 0) and a put max(strike - forward, 0) in every model, the call delta is zero below the strike and one delta unit from the strike on, and gamma, vega and theta are zero. The intrinsic model gives these values always.",
  I, "all models, forwards and strikes",
  "Tests sample a few strikes.",
  ["dcf/models/optionpricing.py", "dcf/models/intrinsic.py"], [("degenerate case", "OptionPayOffModel.get_*"), ("intrinsic model", "IntrinsicOptionPayOffModel")])
p("G03", "Model prices and analytic sensitivities are those of the stated formulas",
  "With a non-zero volatility and time the Bachelier, Black and displaced Black models give the call values and deltas of their formulas in terms of the time to expiry, strike, forward and volatility, the Bachelier model also the stated gamma and vega, each sensitivity scaled by its unit. The displaced model equals the undisplaced one with displacement added to forward and strike, for value, delta and vega.",
  I, "all times, strikes, forwards, volatilities and displacements in the domain of the formulas",
  "Regression tests record values of single points.",
  ["dcf/models/bachelier.py", "dcf/models/black76.py", "dcf/models/displaced.py", "dcf/models/optionpricing.py"], [("formulas", "dcf/models/*._call_*"), ("scaling", "OptionPayOffModel.get_call_*")])
p("G04", "The normal distribution functions are a distribution",
  "The standard normal distribution function lies between zero and one, agrees with the exact one and adds up to one at opposite arguments up to 2e-7, and equals the limit values far out. The density is positive, symmetric and equal to exp(-x^2/2)/sqrt(2 pi) up to 1e-14.",
  I, "all real arguments",
  "No test samples the functions systematically.",
  ["dcf/models/distibutions.py"], [("approximation", "normal_cdf"), ("density", "normal_pdf")])
p("G05", "Option models read forward, volatility and time from what they are given",
  "An option model reads the forward at expiry from its forward curve (a forward price, else a cash rate, else a constant, else a plain function; zero if there is none), the volatility from its volatility curve (a terminal volatility, else a constant, else a plain function; zero if there is none) and uses the forward as strike if none is given, a strike of zero being a strike. The time to expiry is taken from the valuation date to expiry by the first available day count of model, volatility curve and forward curve, else by the default one.",
  IC, "all combinations of given and missing curves, numbers, functions and day counts",
  "Tests use few of the combinations.",
  ["dcf/models/optionpricing.py"], [("parameter look-up", "OptionPayOffModel.details")])
p("G06", "Numerical sensitivities and binaries are the stated difference quotients",
  "Without analytic formula, or if numerical sensitivities are asked for, call delta, gamma and vega of a model are the forward, central second and forward difference quotients of its call value in the forward respectively the volatility, with the shift and unit set for the model class. A binary model derived from a pricing formula values a call as the spread of calls struck half a strike shift below and above, divided by the shift, and its missing parameters are those of the given model.",
  I, "all pricing formulas, parameters, shifts and units",
  "Tests compare numerical and analytic values with wide tolerances at few points.",
  ["dcf/models/optionpricing.py"], [("difference quotients", "OptionPayOffModel.get_call_*"), ("call spread", "BinaryOptionPayOffModel._call_price")])

p("H01", "Payment plans have the asked length, total and shape",
  "For every number of payments n of at least one, the plans have n entries: equal entries of the amount; zeros and the amount at the end (bullet); equal entries summing to the amount (amortising); entries summing to the amount where each is the previous times one plus the rate, so that principal plus interest on the outstanding amount is the same in every period (annuity, also for a zero rate); and equal entries summing to the amount plus n times rate interest (consumer loan).",
  I, "every n >= 1, every amount and every rate above minus one",
  "Tests look at one n and rate.",
  ["dcf/plans.py"], [("plans", "dcf/plans.py")])
p("H02", "Outstanding amounts are the running balance of a plan",
  "The outstanding plan starts with the initial amount, has as many entries as the plan, and each further entry is the previous one less (or, if asked, plus) the payment of the previous period. For a plan paying back the amount, the last entry equals the last payment.",
  I, "plans of any length and amounts of any sign",
  "Tests look at one plan.",
  ["dcf/plans.py"], [("running sum", "dcf/plans.py:outstanding")])

p("J01", "Present value is the sum of discounted future cashflows",
  "The present value at a valuation date (by default the origin of the discount curve) is the sum over all payment dates at or after that date of the discount factor from valuation date to payment date times the cashflow paid; earlier cashflows do not count. The value of a list of legs is the sum of the values of its legs, and option cashflows are valued as of the valuation date.",
  I, "cashflow lists of any length and kind, any curve and valuation date (before, on, between, after payment dates)",
  "Tests value a few lists at few dates.",
  ["dcf/pricer.py"], [("valuation", "get_present_value")])
p("J02", "Yield to maturity reprices the cashflows",
  "If it returns, the yield to maturity lies within the given bounds and discounting the future cashflows at this flat continuously compounded rate from the valuation date (by default the start of the list) gives the asked present value up to the given precision. It returns for every list of positive future cashflows and every price attained strictly within the bounds, and refuses prices not attained between the bounds.",
  I, "all cashflow lists with positive amounts, prices, valuation dates, bounds and precisions",
  "Tests check a par bond and one discounted bond.",
  ["dcf/pricer.py"], [("root search", "_simple_bracketing"), ("error function", "get_yield_to_maturity")])
p("J03", "The fair rate reprices the rate cashflows",
  "If it returns, the fair rate lies within the given bounds and is the fixed rate at which the cashflow list has the asked present value up to the given precision. It returns for every attainable value strictly within the bounds (whatever the sign of the notional), refuses others, and does not depend on the fixed rate the list had before.",
  I, "all rate cashflow lists (with or without forward curve), discount curves, valuation dates, target values and bounds",
  "Tests check one coupon leg.",
  ["dcf/pricer.py"], [("root search", "_simple_bracketing"), ("error function", "get_fair_rate")])
p("J04", "Accrued interest is the elapsed share of the current interest cashflow",
  "At a valuation date inside the accrual period of an interest cashflow the accrued interest of the list is that cashflow times the year fraction elapsed since the period start over the year fraction of the period; it is zero at a period start, and neither cashflows without accrual period nor periods already ended or not yet begun contribute. Lists of legs accrue the sum of their legs, collared rate cashflows included.",
  I, "all schedules, rates, pay offsets and valuation dates",
  "Tests look at one unit-period leg.",
  ["dcf/pricer.py"], [("accrual", "get_interest_accrued")])
p("J05", "Basis point value and buckets are values of stated curve shifts",
  "The basis point value is the change in present value when the shift size is added to the delta curves everywhere, and the bucket values are the changes when the documented triangular (at both ends flat) shift of that size around each grid point is added, each divided by the shift size and times 0.0001. The bucket shifts add up to the full shift at every date, for grids of one, two and more points.",
  I, "all cashflow lists, curves, grids of any size, shift sizes and sets of delta curves",
  "Tests compare one bucket sum with one basis point value.",
  ["dcf/pricer.py"], [("parallel shift", "get_basis_point_value"), ("bucket shifts", "get_bucketed_delta")])
p("J06", "Curve fitting reproduces the given prices",
  "If it returns, the fitted values are one per fitting grid point, in order, and with the curve taking these values at the grid points (linear in between) every product that matures at a grid point and depends on no later one has its given price up to twice the given precision. Values of earlier grid points are not changed by fitting later ones.",
  I, "all strips of products with one maturity per grid point, curves, prices attainable within the bounds",
  "Tests fit one five point curve and one volatility.",
  ["dcf/pricer.py"], [("bootstrapping", "get_curve_fit")])
p("J07", "Valuation leaves its inputs as they were, even when it fails",
  "Computing present value, yield to maturity, accrued interest, fair rate, basis point value, bucketed delta or a curve fit leaves cashflow lists, curves and option models as they were: same fixed rates, curve values, points, spread and model valuation date. This also holds if the computation ends with an exception, whatever step raised it.",
  IF, "all inputs, all sequences of valuations, an exception raised at any evaluation of a curve, model or payoff",
  "Tests never look at inputs after a failure.",
  ["dcf/pricer.py"], [("store and restore", "dcf/pricer.py")])

p("K01", "Rating decomposition is a convex mix reproducing the default probability",
  "For every default probability embraced by a master scale, the decomposition has one weight per rating class in ascending order, all weights are between zero and one, they add up to one, at most two neighbouring classes have non-zero weight, and the mix of class default probabilities reproduces the given probability, all up to the rounding to 7 digits. A probability equal to that of a class has weight one on that class; probabilities outside the scale are refused unless sloppy mode is chosen.",
  I, "all master scales of two or more classes with distinct (to 7 digits) probabilities, all default probabilities",
  "Tests sample one scale.",
  ["dcf/ratingclass.py"], [("decomposition", "RatingClass.__iter__")])

p("L01", "Bonds and swaps exchange the notional and accrue without gaps",
  "A bond pays minus its notional at the start and repays exactly the notional in total (at the end or by the given redemption plan), and each interest cashflow accrues on the notional outstanding over its period; a swap pays interest on minus and receives on plus the notional and exchanges no notional. In every leg interest payment dates increase, end at the product's (business day adjusted) end date, and their periods cover the time from start to end without gap or overlap.",
  IC, "all start and end dates (numbers, business dates), periods, redemption plans and rates",
  "Regression tests record one bond and one swap.",
  ["dcf/cashflows/products.py"], [("schedule", "_interest_payment_dates"), ("legs", "bond, interest_rate_swap")])
p("L02", "Rate tables list the curve at every grid date plus period",
  "A rate table has a header row with the period grid and one row per grid date, starting with that date followed by the curve values at that date plus each period, as long as the sum lies before the next grid date; for the last grid date as long as it lies before that date plus twice the last period. The grid dates are the given ones or else the curve points with the origin put first if missing.",
  I, "all curves and increasing grids of any size",
  "A doctest shows one table.",
  ["dcf/curves/curve.py"], [("table", "dcf/curves/curve.py:rate_table")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
