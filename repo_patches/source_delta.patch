From c6cb42e2f6b9df4b7c482c589ee232c501543091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 01/64] fix: REGULARITY: 0 is a regularity of zero, not the
 default of one

---
 src/libecalc/domain/regularity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/regularity.py b/src/libecalc/domain/regularity.py
index 5f2efa3..00e1576 100644
--- a/src/libecalc/domain/regularity.py
+++ b/src/libecalc/domain/regularity.py
@@ -31,7 +31,7 @@ class Regularity:
         self.expression_evaluator = expression_evaluator
         try:
             self.temporal_expression = TemporalExpression(
-                expression=expression_input or self.default_expression_value(),
+                expression=expression_input if expression_input is not None else self.default_expression_value(),
                 target_period=target_period,
                 expression_evaluator=expression_evaluator,
             )
-- 
2.43.0


From 422569f0ae5e96a29797235e21dbd5d2467fff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 02/64] fix: CONDITION: 0 switches a consumer off instead of
 being ignored

---
 .../presentation/yaml/mappers/consumer_function_mapper.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index cc58f8e..24aca89 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -178,7 +178,7 @@ class ConditionedModel(Protocol):
 
 
 def _map_condition(energy_usage_model: ConditionedModel) -> str | int | float | None:
-    if energy_usage_model.condition:
+    if energy_usage_model.condition is not None:
         condition_value = energy_usage_model.condition
         return condition_value
     elif energy_usage_model.conditions:
-- 
2.43.0


From a126ea7aedffd158399584d96f18d247d1e7fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:05 +0000
Subject: [PATCH 03/64] fix: CONDITIONS of a venting emitter rate are applied
 instead of ignored

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 02bf75e..16a5fd8 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -46,6 +46,7 @@ from libecalc.presentation.yaml.domain.yaml_component import YamlComponent
 from libecalc.presentation.yaml.mappers.consumer_function_mapper import (
     ConsumerFunctionMapper,
     InvalidEnergyUsageModelException,
+    _map_condition,
 )
 from libecalc.presentation.yaml.mappers.yaml_mapping_context import MappingContext
 from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
@@ -569,7 +570,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=emission.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=emission.rate.condition,
+                                condition=_map_condition(emission.rate),
                             ),
                             unit=emission.rate.unit.to_unit(),
                             rate_type=emission.rate.type,
@@ -598,7 +599,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=data.volume.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=data.volume.rate.condition,
+                                condition=_map_condition(data.volume.rate),
                             ),
                             unit=data.volume.rate.unit.to_unit(),
                             rate_type=data.volume.rate.type,
-- 
2.43.0


From 0cbdc124cd3448a1a1587052172b68277913b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:52 +0000
Subject: [PATCH 04/64] fix: consumer model definitions outside the evaluated
 period are skipped instead of crashing

---
 .../presentation/yaml/mappers/consumer_function_mapper.py  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 24aca89..30789aa 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -984,7 +984,12 @@ class ConsumerFunctionMapper:
         self._expression_evaluator = expression_evaluator
         self._regularity = regularity
         self._period_subsets = {}
-        self._time_adjusted_model = define_time_model_for_period(energy_usage_model, target_period=target_period)
+        evaluated_period = expression_evaluator.get_period()
+        self._time_adjusted_model = {
+            period: model
+            for period, model in define_time_model_for_period(energy_usage_model, target_period=target_period).items()
+            if Period.intersects(period, evaluated_period)
+        }
         self._mapping_context = mapping_context
         self._process_service = mapping_context._process_service
         self._consumer_id = consumer_id
-- 
2.43.0


From 05229160e39bcccbded8c0e7ec1e8d4281788fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:18 +0000
Subject: [PATCH 05/64] fix: an installation without active consumers in the
 period is reported instead of crashing

---
 src/libecalc/presentation/yaml/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/model.py b/src/libecalc/presentation/yaml/model.py
index 42c9105..3611a54 100644
--- a/src/libecalc/presentation/yaml/model.py
+++ b/src/libecalc/presentation/yaml/model.py
@@ -492,11 +492,12 @@ class YamlModel:
             # TODO: There's a difference between a container and a provider, but we capture both in our EnergyModel. children vs consumer, installation vs genset. Installation is a container, genset is a provider
             assert isinstance(energy_model, EnergyContainerEnergyModel)
             children = energy_model.get_all_children(component_id)
-            assert len(children) > 0
             for child_id in children:
                 validity.append(self.get_validity(child_id))
 
-            return reduce(lambda acc, current: acc * current, validity)
+            if len(validity) > 0:
+                return reduce(lambda acc, current: acc * current, validity)
+            # No consumers are active in the evaluated period, nothing can be invalid
 
         if component_id in self._consumer_results:
             return self._consumer_results[component_id].is_valid
-- 
2.43.0


From 94f1bf831873a758aa4c681c10586abd3566cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:18 +0000
Subject: [PATCH 06/64] fix: reject a generator set without ELECTRICITY2FUEL in
 the period instead of crashing

---
 .../presentation/yaml/mappers/component_mapper.py        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 16a5fd8..5311460 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -288,6 +288,15 @@ class EcalcModelMapper:
         generator_set_model_data = define_time_model_for_period(
             data.electricity2fuel, target_period=self._target_period
         )
+        if not generator_set_model_data:
+            raise ModelValidationException(
+                errors=[
+                    self._create_error(
+                        message="ELECTRICITY2FUEL is not defined in the evaluated period.",
+                        specific_path=yaml_path.append("ELECTRICITY2FUEL"),
+                    )
+                ]
+            )
 
         try:
             generator_set_model = TemporalModel(
-- 
2.43.0


From ce5b9aa0459c4fe8b11d928e2d11d033932282b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:23 +0000
Subject: [PATCH 07/64] fix: dated variable definitions are matched to their
 own dates when not written in date order

---
 .../yaml/mappers/variables_mapper/variables_mapper.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
index 918fd59..404cec0 100644
--- a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
@@ -32,10 +32,11 @@ class VariableProcessor:
         if isinstance(self.variable, YamlSingleVariable):
             return list(self.variable.value.evaluate(variables, fill_length=len(periods)))
         else:
-            variable_periods = Periods.create_periods(sorted(self.variable), include_before=False)
+            variable_start_dates = sorted(self.variable)
+            variable_periods = Periods.create_periods(variable_start_dates, include_before=False)
             processed_expressions = {
-                period: variable.value.evaluate(variables, fill_length=len(periods))
-                for period, variable in zip(variable_periods, self.variable.values())
+                period: self.variable[start_date].value.evaluate(variables, fill_length=len(periods))
+                for period, start_date in zip(variable_periods, variable_start_dates)
             }
 
             variable_result = []
-- 
2.43.0


From 190676385929c75ac1faa0c1dfc9439b3b9b5a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:27 +0000
Subject: [PATCH 08/64] fix: reject an expression with a missing operator or no
 content instead of dropping operands

---
 src/libecalc/expression/expression_tree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 5c0f03a..c231193 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -136,6 +136,12 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
         else:
             stack.append(Node(token=token))
 
+    if len(stack) == 0:
+        raise ValueError("Expression is empty")
+
+    if len(stack) > 1:
+        raise ValueError(f"Missing operator for operand '{stack[-1].token.value}'")
+
     return stack.pop()
 
 
-- 
2.43.0


From 400485f73c367292fa6270646f0a5a2bba9b4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:46 +0000
Subject: [PATCH 09/64] fix: division by zero in an expression gives zero, as
 documented, not the largest float

---
 src/libecalc/expression/expression_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index c231193..aa5b046 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -145,6 +145,11 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
     return stack.pop()
 
 
+def _divide(dividend: NDArray[np.float64], divisor: NDArray[np.float64]) -> NDArray[np.float64]:
+    """Divide, with division by zero giving zero."""
+    return np.divide(dividend, divisor, out=np.zeros_like(dividend), where=divisor != 0)
+
+
 class Operator(NamedTuple):
     value: str
     function: Callable
@@ -155,7 +160,7 @@ class Operator(NamedTuple):
 OPERATORS = {
     "{^}": Operator(value="{^}", function=op.pow, precedence=24, associativity="RIGHT"),
     "{*}": Operator(value="{*}", function=op.mul, precedence=23, associativity="LEFT"),
-    "{/}": Operator(value="{/}", function=op.truediv, precedence=23, associativity="LEFT"),
+    "{/}": Operator(value="{/}", function=_divide, precedence=23, associativity="LEFT"),
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
     "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-- 
2.43.0


From 75a9e7c6224cb03681dd100dd2d5a1650024bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:05 +0000
Subject: [PATCH 10/64] fix: scientific notation with more than one leading
 digit is a number, not a number and a reference

---
 src/libecalc/expression/expression_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_evaluator.py b/src/libecalc/expression/expression_evaluator.py
index f433fe4..942b970 100644
--- a/src/libecalc/expression/expression_evaluator.py
+++ b/src/libecalc/expression/expression_evaluator.py
@@ -91,7 +91,7 @@ def lexer(expression: str | int | float) -> list[Token]:
         (r">", TokenTag.operator),
         (r"==", TokenTag.operator),
         (r"!=", TokenTag.operator),
-        (r"[0-9](\.[0-9]+)?e[-+]?[0-9]+", TokenTag.numeric),  # Scientific notation, e.g. 1.23e-05, 3.4e7, 1e+1
+        (r"[0-9]+(\.[0-9]+)?e[-+]?[0-9]+", TokenTag.numeric),  # Scientific notation, e.g. 1.23e-05, 3.4e7, 1e+1
         (r"[0-9.]+", TokenTag.numeric),
         (r"[A-Za-z][A-Za-z0-9._;:+*/-]*", TokenTag.reference),
         (r"\$var\.[A-Za-z][A-Za-z0-9_]*", TokenTag.reference),
-- 
2.43.0


From 310d52177ea5bee599e8720126ddd4864668cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 11/64] fix: resampled values are carried forward from the
 latest observation, not the latest one on a new date

---
 src/libecalc/common/utils/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 3dd2b56..8103ee8 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -199,7 +199,7 @@ class TimeSeries[TimeSeriesValue](BaseModel, ABC):
             self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date
         )
         new_time_steps = new_periods.start_dates
-        ds_resampled = ds.reindex(new_time_steps).ffill()
+        ds_resampled = ds.reindex(new_time_steps, method="ffill").ffill()
 
         return self.__class__(
             periods=new_periods,
-- 
2.43.0


From 2155318e68bcc5bb450e7853b08641326859b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:08 +0000
Subject: [PATCH 12/64] fix: resampling keeps the time of day of the first and
 last date instead of crashing or dropping part-days

---
 src/libecalc/common/time_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/common/time_utils.py b/src/libecalc/common/time_utils.py
index fa39865..9a2db7f 100644
--- a/src/libecalc/common/time_utils.py
+++ b/src/libecalc/common/time_utils.py
@@ -319,14 +319,16 @@ def create_start_and_end_dates_for_periods(
     """
     # If the start date or end date is part of the date_range made by the frequency, the returned date range will
     # always include the start and end date (no matter what the include_start_date and include_end_date booleans are).
-    # To avoid this add one day to start and subtract one day from end.
-    date_range = pd.date_range(start=start + timedelta(days=1), end=end - timedelta(days=1), freq=frequency.value)
+    # To avoid this only use the dates strictly between start and end, at midnight whatever the time of day of start.
+    date_range = pd.date_range(
+        start=clear_time(start) + timedelta(days=1), end=end - timedelta(microseconds=1), freq=frequency.value
+    )
 
     time_steps = [clear_time(time_step) for time_step in date_range]
     if include_start_date:
-        time_steps = [clear_time(start)] + time_steps
+        time_steps = [start] + time_steps
     if include_end_date:
-        time_steps = [clear_time(end)] + time_steps
+        time_steps = [end] + time_steps
 
     return sorted(set(time_steps))
 
-- 
2.43.0


From ef1dec38dc84e4ea0f3f0d2256ce9a40d1f2aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:36 +0000
Subject: [PATCH 13/64] fix: a rate series can be indexed by position or by a
 list of positions

---
 src/libecalc/common/utils/rates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 8103ee8..27e5af3 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -995,16 +995,16 @@ class TimeSeriesRate(TimeSeries[float]):
             )
         elif isinstance(indices, int):
             return self.__class__(
-                periods=[self.periods[indices]],
+                periods=self.periods[indices],
                 values=[self.values[indices]],
                 regularity=[self.regularity[indices]],
                 unit=self.unit,
                 rate_type=self.rate_type,
             )
         elif isinstance(indices, list | np.ndarray):
-            indices = list(indices)
+            indices = [int(i) for i in indices]
             return self.__class__(
-                periods=[self.periods[i] for i in indices],
+                periods=self.periods[indices],
                 values=[self.values[i] for i in indices],
                 regularity=[self.regularity[i] for i in indices],
                 unit=self.unit,
-- 
2.43.0


From 1e657512114d011d7ebd8afd13b43c810d63a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:03 +0000
Subject: [PATCH 14/64] fix: prognosis export of a model without START no
 longer crashes on definitions that apply before the evaluated period

---
 .../presentation/exporter/infrastructure.py   | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/presentation/exporter/infrastructure.py b/src/libecalc/presentation/exporter/infrastructure.py
index eb97232..0bf7a29 100644
--- a/src/libecalc/presentation/exporter/infrastructure.py
+++ b/src/libecalc/presentation/exporter/infrastructure.py
@@ -36,6 +36,7 @@ class TimeSeriesAttribute(Attribute):
 
 
 TCategory = TypeVar("TCategory")
+TDated = TypeVar("TDated")
 
 
 class InstallationExportable(Exportable):
@@ -48,7 +49,7 @@ class InstallationExportable(Exportable):
         attributes = []
         for electricity_producer in self._installation.get_electricity_producers():
             consumer_category = self._category_service.get_category(electricity_producer.get_id())
-            for period, category in consumer_category.items():
+            for period, category in self._within_evaluated_period(consumer_category.items()):
                 power_production_rate = electricity_producer.get_power_production()
 
                 electricity_production_volumes = power_production_rate.for_period(period).to_volumes().to_unit(unit)
@@ -73,7 +74,7 @@ class InstallationExportable(Exportable):
                 continue
 
             consumer_category = self._category_service.get_category(electricity_producer.get_id())
-            for period, category in consumer_category.items():
+            for period, category in self._within_evaluated_period(consumer_category.items()):
                 max_usage_from_shore_rate = max_electricity_production.for_period(period).to_unit(unit)
 
                 attributes.append(
@@ -96,7 +97,7 @@ class InstallationExportable(Exportable):
 
             consumer_category = self._category_service.get_category(storage_container.get_id())
 
-            for period, category in consumer_category.items():
+            for period, category in self._within_evaluated_period(consumer_category.items()):
                 attributes.append(
                     TimeSeriesAttribute(
                         time_series=storage_volumes.for_period(period),
@@ -122,6 +123,18 @@ class InstallationExportable(Exportable):
         assert isinstance(self._installation, InstallationComponent)
         return self._installation.expression_evaluator.get_periods()
 
+    def _within_evaluated_period(self, dated: Iterable[tuple[Period, TDated]]) -> Iterable[tuple[Period, TDated]]:
+        """
+        Definitions without a start apply from long before the evaluated period. Keep only the part of each period
+        that is evaluated.
+        """
+        periods = self.get_periods()
+        evaluated_period = Period(start=periods.first_date, end=periods.last_date)
+        for period, value in dated:
+            evaluated = Period.intersection(period, evaluated_period)
+            if evaluated is not None:
+                yield evaluated, value
+
     @staticmethod
     def _combine_categories(
         fuel_category: TemporalModel[str | None] = None,
@@ -205,7 +218,9 @@ class InstallationExportable(Exportable):
 
             fuel_category = self._get_temporal_fuel_category(fuel_rate.fuel)
 
-            for period, attribute_meta in self._combine_categories(fuel_category, consumer_category):  # type: ignore[arg-type]
+            for period, attribute_meta in self._within_evaluated_period(
+                self._combine_categories(fuel_category, consumer_category)  # type: ignore[arg-type]
+            ):
                 fuel_consumption_volumes = fuel_rate.rate.for_period(period).to_volumes()
                 if any(math.isnan(x) for x in fuel_consumption_volumes.values):
                     pass
@@ -237,7 +252,7 @@ class InstallationExportable(Exportable):
                     for period, category in consumer_category.items()
                 ]
 
-            for period, attribute_meta in iterator:
+            for period, attribute_meta in self._within_evaluated_period(iterator):
                 electricity_consumption_volumes = (
                     power_consumer.get_power_consumption().for_period(period).to_volumes().to_unit(unit)
                 )
@@ -272,7 +287,7 @@ class InstallationExportable(Exportable):
                     (period, AttributeMeta(fuel_category=None, consumer_category=category))
                     for period, category in consumer_category.items()
                 ]
-            for period, attribute_meta in iterator:
+            for period, attribute_meta in self._within_evaluated_period(iterator):
                 for emission_name, emission in emissions.items():
                     emission_volumes = emission.for_period(period).to_volumes().to_unit(unit)
                     emission_attribute_meta = AttributeMeta(
-- 
2.43.0


From 8001589d0e97d498697ef3f4b9c58d35ad14ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:14 +0000
Subject: [PATCH 15/64] fix: one value that could not be computed no longer
 removes all other contributions from an export column

---
 src/libecalc/presentation/exporter/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/exporter/infrastructure.py b/src/libecalc/presentation/exporter/infrastructure.py
index 0bf7a29..e737de2 100644
--- a/src/libecalc/presentation/exporter/infrastructure.py
+++ b/src/libecalc/presentation/exporter/infrastructure.py
@@ -29,7 +29,8 @@ class TimeSeriesAttribute(Attribute):
         self._time_series = time_series
 
     def datapoints(self) -> Iterable[tuple[Period, float]]:
-        return self._time_series.datapoints()
+        # A value that could not be computed contributes nothing, it does not remove the contributions of others
+        return self._time_series.fill_nan(0).datapoints()
 
     def get_meta(self) -> AttributeMeta:
         return self._attribute_meta
-- 
2.43.0


From ac516e32b69176d633a20a2d8e8c04a19f47228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:13 +0000
Subject: [PATCH 16/64] fix: the export reports the maximum usage from shore
 within each period, not the value at its start

---
 src/libecalc/presentation/exporter/queries.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/presentation/exporter/queries.py b/src/libecalc/presentation/exporter/queries.py
index c367740..296d597 100644
--- a/src/libecalc/presentation/exporter/queries.py
+++ b/src/libecalc/presentation/exporter/queries.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 
 from libecalc.common.time_utils import Frequency, Period, Periods, resample_periods
 from libecalc.common.units import Unit
-from libecalc.common.utils.rates import TimeSeriesFloat, TimeSeriesVolumes
+from libecalc.common.utils.rates import TimeSeriesVolumes
 from libecalc.presentation.exporter.domain.exportable import Exportable
 
 
@@ -263,17 +263,15 @@ class MaxUsageFromShoreQuery(Query):
 
         sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
         sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
-        period_keys = list(sorted_result.keys())
 
         # Max usage from shore is time series float (values)
         # The maximum value with in each period in sorted_results should be found for the new periods
 
         return {
-            period: TimeSeriesFloat(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit)
-            .resample(freq=frequency)
-            .for_period(period)
-            .max
-            for period in resample_periods(periods=installation_graph.get_periods(), frequency=frequency)
+            new_period: max(
+                value for period, value in sorted_result.items() if Period.intersects(period, new_period)
+            )
+            for new_period in resample_periods(periods=installation_graph.get_periods(), frequency=frequency)
         }
 
 
-- 
2.43.0


From be0de9ec5a7e8218f052d18b26676f69b2d0a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 17/64] fix: a model without CO2 emissions gets no emission
 intensity instead of crashing the run

---
 src/ecalc_cli/emission_intensity.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_cli/emission_intensity.py b/src/ecalc_cli/emission_intensity.py
index ba86df7..e1ba511 100644
--- a/src/ecalc_cli/emission_intensity.py
+++ b/src/ecalc_cli/emission_intensity.py
@@ -45,6 +45,10 @@ class EmissionIntensityCalculator:
         self.emissions = emissions
         self.frequency = frequency
 
+        if self._co2_emission_result() is None:
+            # No CO2 emissions, hence no emission intensity
+            return
+
         self._hydrocarbon_export_cumulative = hydrocarbon_export_rate.to_volumes().cumulative()
         self._intensity_calculator_sm3 = EmissionIntensity(
             emission_cumulative=self._cumulative_rate_kg(),
@@ -64,6 +68,9 @@ class EmissionIntensityCalculator:
         """
         emission_intensities = []
 
+        if self._co2_emission_result() is None:
+            return EmissionIntensityResults(results=emission_intensities)
+
         if self.frequency == Frequency.YEAR:
             intensity_yearly_sm3 = self._intensity_calculator_sm3.calculate_for_periods()
             intensity_yearly_boe = self._intensity_calculator_boe.calculate_for_periods()
@@ -83,8 +90,8 @@ class EmissionIntensityCalculator:
         )
         return EmissionIntensityResults(results=emission_intensities)
 
-    def _co2_emission_result(self) -> EmissionResult:
-        return next((value for key, value in self.emissions.items() if key.lower() == "co2"))
+    def _co2_emission_result(self) -> EmissionResult | None:
+        return next((value for key, value in self.emissions.items() if key.lower() == "co2"), None)
 
     def _cumulative_rate_kg(self) -> TimeSeriesVolumesCumulative:
         return self._co2_emission_result().get_cumulative_kg()
-- 
2.43.0


From 150fbad55ba025129f80eb5613ff0e9afd90f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:58 +0000
Subject: [PATCH 18/64] fix: a cache size of 0 disables the cache, as
 documented, instead of meaning the default

---
 src/ecalc_cli/commands/run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index 0976f23..ee18a2f 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -133,8 +133,10 @@ def run(
     if reference_cache_size is not None or flash_cache_size is not None:
         defaults = CacheConfig.default()
         config = CacheConfig(
-            reference_fluid_max_size=reference_cache_size or defaults.reference_fluid_max_size,
-            flash_max_size=flash_cache_size or defaults.flash_max_size,
+            reference_fluid_max_size=(
+                reference_cache_size if reference_cache_size is not None else defaults.reference_fluid_max_size
+            ),
+            flash_max_size=flash_cache_size if flash_cache_size is not None else defaults.flash_max_size,
         )
         NeqSimFluidService.configure(config)
 
-- 
2.43.0


From 10e709cbffb4856c7285e466a47581b2c79f7701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:03 +0000
Subject: [PATCH 19/64] fix: output files keep a name prefix containing dots,
 as the other files of the run do

---
 src/ecalc_cli/commands/run.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index ee18a2f..51a10b1 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -166,8 +166,6 @@ def run(
 
         run_info.end = datetime.now()
 
-        output_prefix: Path = output_folder / name_prefix
-
         results_dto = get_asset_result(model)
 
         if (
@@ -207,16 +205,14 @@ def run(
                 simple_output=not detailed_output,
                 date_format_option=int(date_format_option.value),
             )
-            write_output(output=csv_data, output_file=output_prefix.with_suffix(".csv"))
+            write_output(output=csv_data, output_file=output_folder / f"{name_prefix}.csv")
 
             # Emission intensity CSV
             intensity_csv_data = emission_intensity_to_csv(
                 emission_intensity_results_resampled,
                 DateTimeFormats.get_format(int(date_format_option.value)),
             )
-            write_output(
-                output=intensity_csv_data, output_file=output_prefix.with_name(f"{output_prefix.stem}_intensity.csv")
-            )
+            write_output(output=intensity_csv_data, output_file=output_folder / f"{name_prefix}_intensity.csv")
 
         if json:
             write_json(
@@ -228,7 +224,7 @@ def run(
                 simple_output=not detailed_output,
             )
             # Emission intensity JSON
-            intensity_json_path = output_prefix.with_name(f"{output_prefix.stem}_intensity.json")
+            intensity_json_path = output_folder / f"{name_prefix}_intensity.json"
             json_intensity_data = to_json(
                 emission_intensity_results_resampled,
                 date_format_option=int(date_format_option.value),
-- 
2.43.0


From 694a3d3a3d241971137907271b197f5a9146913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 20/64] fix: a delta profile has the power of a component that
 has power in only one of the models

---
 src/libecalc/presentation/simple_result/simple.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/simple_result/simple.py b/src/libecalc/presentation/simple_result/simple.py
index e4100a8..b6bdec1 100644
--- a/src/libecalc/presentation/simple_result/simple.py
+++ b/src/libecalc/presentation/simple_result/simple.py
@@ -211,7 +211,11 @@ class SimpleComponentResult(SimpleBase):
             is_valid=[changed and reference for changed, reference in zip(self.is_valid, reference_component.is_valid)],
             energy_usage=_subtract_list(self.energy_usage, reference_component.energy_usage),
             energy_usage_unit=self.energy_usage_unit,
-            power=_subtract_list(self.power, reference_component.power),  # type: ignore[arg-type]
+            power=_subtract_list(
+                # a component without power (None, or empty when fitted to periods) counts as zero power
+                self.power or [0] * len(reference_component.power or []),
+                reference_component.power or [0] * len(self.power or []),
+            ),
             emissions={
                 self_e.name: self_e - reference_e
                 for self_e, reference_e in zip(
-- 
2.43.0


From e83cb5aef0fb7f7792a426b241b469e4f01bb5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 21/64] fix: comparing two results no longer adds emissions to
 the compared results

---
 src/libecalc/presentation/simple_result/simple.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/presentation/simple_result/simple.py b/src/libecalc/presentation/simple_result/simple.py
index b6bdec1..c717837 100644
--- a/src/libecalc/presentation/simple_result/simple.py
+++ b/src/libecalc/presentation/simple_result/simple.py
@@ -313,6 +313,12 @@ class SimpleResultData(SimpleBase):
     def _normalize_emissions(cls, changed_component, reference_component):
         emission_names = set(changed_component.emissions.keys()).union(x for x in reference_component.emissions)
 
+        # copies, to leave the compared results as they are
+        changed_component, reference_component = (
+            component.model_copy(update={"emissions": dict(component.emissions)})
+            for component in (changed_component, reference_component)
+        )
+
         for emission_name in emission_names:
             for component in [changed_component, reference_component]:
                 if emission_name not in list(component.emissions):
-- 
2.43.0


From c03fb5a37380f765dae79de105ef2f5d36909069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:08 +0000
Subject: [PATCH 22/64] fix: statistics of an empty fluid cache are reported
 instead of nothing

---
 src/ecalc_neqsim_wrapper/fluid_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_neqsim_wrapper/fluid_service.py b/src/ecalc_neqsim_wrapper/fluid_service.py
index d81c4f1..e78cabf 100644
--- a/src/ecalc_neqsim_wrapper/fluid_service.py
+++ b/src/ecalc_neqsim_wrapper/fluid_service.py
@@ -517,6 +517,6 @@ def get_fluid_service_stats() -> dict[str, dict]:
     ref_cache = CacheService.get_cache(CacheName.REFERENCE_FLUID)
     flash_cache = CacheService.get_cache(CacheName.FLUID_SERVICE_FLASH)
     return {
-        CacheName.REFERENCE_FLUID.value: ref_cache.get_stats() if ref_cache else {},
-        CacheName.FLUID_SERVICE_FLASH.value: flash_cache.get_stats() if flash_cache else {},
+        CacheName.REFERENCE_FLUID.value: ref_cache.get_stats() if ref_cache is not None else {},
+        CacheName.FLUID_SERVICE_FLASH.value: flash_cache.get_stats() if flash_cache is not None else {},
     }
-- 
2.43.0


From a2983e9b66400c86b10e39918cc9e71057c84aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:05 +0000
Subject: [PATCH 23/64] fix: split a convex hull into its upper and lower part
 from a point inside it

The middle of the bounding box of the sampled points lies on or outside the hull when a corner of the box is cut off;
a sampled compressor table of that shape could not be loaded or was extrapolated wrongly.
---
 .../process/compressor/core/sampled/convex_hull_common.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
index 748e1ef..5252f07 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
@@ -106,8 +106,8 @@ def get_lower_upper_qhull(qh: ConvexHull, axis: int = 0, case_2d: str = "rate_ps
     These functions are used for further computation of functions to be used for
     projection of (rate, ps, pd) points.
     """
-    # Select one point in the middle of the convex hull
-    test_point = (qh.max_bound + qh.min_bound) / 2
+    # Select one point in the interior of the convex hull (the middle of its bounding box need not be inside)
+    test_point = qh.points[qh.vertices].mean(axis=0)
 
     non_boundary_simplices = np.argwhere(qh.equations[:, axis] != 0.0)[:, 0]
     eqs_non_boundary_unified = qh.equations[non_boundary_simplices, :] / qh.equations[
-- 
2.43.0


From 7a519f912f0e552689aad7ba34c05d7966e4c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:22 +0000
Subject: [PATCH 24/64] fix: sampled compressors in three variables with low
 rates are scaled by at least 1 instead of divided by zero

---
 .../compressor/core/sampled/compressor_model_sampled_3d.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
index d00f163..08207ad 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
@@ -121,8 +121,9 @@ class CompressorModelSampled3D:
         sampled_data_scaled = sampled_data[self.variable_order_3d].copy().astype("float64")
         if rescale_rate:
             self._do_rescale = True
-            self._scale_factor_rate = round(
-                2 * sampled_data[RATE_NAME].mean() / (sampled_data[PS_NAME].mean() + sampled_data[PD_NAME].mean())
+            self._scale_factor_rate = max(
+                1,
+                round(2 * sampled_data[RATE_NAME].mean() / (sampled_data[PS_NAME].mean() + sampled_data[PD_NAME].mean())),
             )
             sampled_data_scaled[RATE_NAME] = sampled_data_scaled[RATE_NAME] / self._scale_factor_rate
         else:
-- 
2.43.0


From ff0243821b9e459b9ce08bf2f5f6b463f47c7570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 25/64] fix: a point projected to the border of a two-variable
 sampled compressor's area is not lost to rounding errors

---
 .../sampled/compressor_model_sampled_2d.py    | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
index 34aec5b..b0830c4 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
@@ -15,6 +15,19 @@ from libecalc.domain.process.compressor.core.sampled.convex_hull_common import (
 )
 
 
+def _interpolate_in_hull(
+    interpolator: LinearNDInterpolator, hull_center: NDArray[np.float64], points: NDArray[np.float64]
+) -> NDArray[np.float64]:
+    """Interpolate, also in points that were projected to the border of the convex hull, but are outside it due to
+    numerical errors: those are moved slightly towards the center of the hull.
+    """
+    values = np.array(interpolator(points))
+    outside = np.isnan(values)
+    if np.any(outside):
+        values[outside] = interpolator(points[outside] + 1e-9 * (hull_center - points[outside]))
+    return values
+
+
 class CompressorModelSampled2DRatePd:
     """AKA: ChangeRateAndDischargePressureScenario.
 
@@ -60,6 +73,7 @@ class CompressorModelSampled2DRatePd:
         # for any point (rate, Dp) in the convex hull we can draw a line between
         # them to interpolate and find interpolated values
         convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
+        self._hull_center = convex_hull.points.mean(axis=0)
 
         # we can only increase rate, therefore we do not care about upper_rate_points...
         # we either want upper or lower convex hull, so for Pd we want lower
@@ -160,7 +174,7 @@ class CompressorModelSampled2DRatePd:
             rate=rate, discharge_pressure=discharge_pressure
         )
         x_for_interpolator = np.stack((rate_projected, pd_projected), axis=-1)
-        return np.array(self._interpolator(x_for_interpolator))
+        return _interpolate_in_hull(self._interpolator, self._hull_center, x_for_interpolator)
 
     def get_max_rate(self, discharge_pressure: NDArray[np.float64]) -> float:
         """AKA: find_maximum_compatible_rate.
@@ -224,6 +238,7 @@ class CompressorModelSampled2DRatePs:
         )
 
         convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
+        self._hull_center = convex_hull.points.mean(axis=0)
         (
             lower_rate_points_qh,
             _,
@@ -268,7 +283,7 @@ class CompressorModelSampled2DRatePs:
     def evaluate(self, rate: NDArray[np.float64], suction_pressure: NDArray[np.float64], **kwargs):
         rate_projected, ps_projected = self._project_variables_for_evaluation(rate=rate, ps=suction_pressure)
         x_for_interpolator = np.stack((rate_projected, ps_projected), axis=-1)
-        energy_consumption = self._interpolator(x_for_interpolator)
+        energy_consumption = _interpolate_in_hull(self._interpolator, self._hull_center, x_for_interpolator)
 
         return energy_consumption
 
@@ -299,6 +314,7 @@ class CompressorModelSampled2DPsPd:
         )
 
         convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
+        self._hull_center = convex_hull.points.mean(axis=0)
         lower_pd_points_qh, _, _ = get_lower_upper_qhull(convex_hull, axis=self.pd_axis, case_2d="ps_pd")
         lower_pd_points = lower_pd_points_qh.points
 
@@ -331,7 +347,7 @@ class CompressorModelSampled2DPsPd:
     def evaluate(self, suction_pressure: NDArray[np.float64], discharge_pressure: NDArray[np.float64], **kwargs):
         ps_projected, pd_projected = self._project_variables_for_evaluation(ps=suction_pressure, pd=discharge_pressure)
         x_for_interpolator = np.stack((ps_projected, pd_projected), axis=-1)
-        energy_consumption = self._interpolator(x_for_interpolator)
+        energy_consumption = _interpolate_in_hull(self._interpolator, self._hull_center, x_for_interpolator)
 
         return energy_consumption
 
-- 
2.43.0


From e914a7bb8db7876293ebf9c20d3561e70f7ac675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:02 +0000
Subject: [PATCH 26/64] fix: convert the head margin of pump charts from meter
 liquid column

---
 .../presentation/yaml/mappers/facility_input.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index b789dc2..780a1ef 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,5 @@
 from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
 from libecalc.domain.resource import Resource
@@ -17,6 +18,11 @@ def _get_float_column_or_none(resource: Resource, header: str) -> list[float] |
         return None
 
 
+def _get_head_margin_joule_per_kg(facility_data: YamlPumpChartSingleSpeed | YamlPumpChartVariableSpeed) -> float:
+    """HEAD_MARGIN is given in meter liquid column."""
+    return Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN.to(Unit.POLYTROPIC_HEAD_JOULE_PER_KG)(facility_data.head_margin)
+
+
 def _create_pump_model_single_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartSingleSpeed,
@@ -24,7 +30,7 @@ def _create_pump_model_single_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_get_head_margin_joule_per_kg(facility_data),
     )
 
 
@@ -35,7 +41,7 @@ def _create_pump_chart_variable_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_get_head_margin_joule_per_kg(facility_data),
     )
 
 
-- 
2.43.0


From f933e03c54ae0c7a07644da2a6d06a375aa3afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:15 +0000
Subject: [PATCH 27/64] fix: pump charts without an efficiency column are 100 %
 efficient, as documented

---
 .../mappers/charts/user_defined_chart_data.py | 29 +++++++++++++++++--
 .../yaml/mappers/facility_input.py            |  8 +++--
 .../mappers/pump_process_simulation_mapper.py |  1 +
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
index e904d41..8453e6f 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
@@ -5,6 +5,7 @@ import pandas as pd
 
 from libecalc.common.chart_type import ChartType
 from libecalc.common.errors.exceptions import HeaderNotFoundException, InvalidColumnException
+from libecalc.common.units import Unit
 from libecalc.domain.process.value_objects.chart import ChartCurve
 from libecalc.domain.process.value_objects.chart.chart import ChartData
 from libecalc.domain.resource import Resource
@@ -54,8 +55,18 @@ class UserDefinedChartData(ChartData):
 
     @classmethod
     def from_resource(
-        cls, resource: Resource, units: YamlUnits, is_single_speed: bool, control_margin: float | None = None
+        cls,
+        resource: Resource,
+        units: YamlUnits,
+        is_single_speed: bool,
+        control_margin: float | None = None,
+        default_efficiency: float | None = None,
     ) -> "UserDefinedChartData":
+        """
+        Args:
+            default_efficiency: efficiency (fraction) to use if the resource has no efficiency column.
+                The column is required if not given.
+        """
         rate_unit = YAML_UNIT_MAPPING[units.rate]
         head_unit = YAML_UNIT_MAPPING[units.head]
         efficiency_unit = YAML_UNIT_MAPPING[units.efficiency]
@@ -74,7 +85,15 @@ class UserDefinedChartData(ChartData):
                 logger.debug("Speed not specified for single speed chart, setting speed to 1.")
                 speed = 1
 
-            efficiency_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_efficiency)
+            try:
+                efficiency_fractions = convert_efficiency_to_fraction(
+                    resource.get_float_column(EcalcYamlKeywords.consumer_chart_efficiency), efficiency_unit
+                )
+            except HeaderNotFoundException:
+                if default_efficiency is None:
+                    raise
+                efficiency_fractions = None
+
             rate_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_rate)
             head_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_head)
             curves = [
@@ -82,7 +101,9 @@ class UserDefinedChartData(ChartData):
                     speed_rpm=speed,
                     rate_actual_m3_hour=convert_rate_to_am3_per_hour(rate_values, rate_unit),
                     polytropic_head_joule_per_kg=convert_head_to_joule_per_kg(head_values, head_unit),
-                    efficiency_fraction=convert_efficiency_to_fraction(efficiency_values, efficiency_unit),
+                    efficiency_fraction=efficiency_fractions
+                    if efficiency_fractions is not None
+                    else [default_efficiency] * len(rate_values),
                 )
             ]
         else:
@@ -96,6 +117,8 @@ class UserDefinedChartData(ChartData):
                 column = resource.get_float_column(header)
                 resource_data.append(column)
             df = pd.DataFrame(data=resource_data, index=resource_headers).transpose().astype(float)
+            if EcalcYamlKeywords.consumer_chart_efficiency not in df.columns and default_efficiency is not None:
+                df[EcalcYamlKeywords.consumer_chart_efficiency] = Unit.FRACTION.to(efficiency_unit)(default_efficiency)
             grouped_by_speed = df.groupby(EcalcYamlKeywords.consumer_chart_speed, sort=False)
             curves = [
                 ChartCurve(
diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index 780a1ef..c20056c 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -27,7 +27,9 @@ def _create_pump_model_single_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartSingleSpeed,
 ) -> PumpModel:
-    pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
+    pump_chart = UserDefinedChartData.from_resource(
+        resource, units=facility_data.units, is_single_speed=True, default_efficiency=1.0
+    )
     return PumpModel(
         pump_chart=pump_chart,
         head_margin=_get_head_margin_joule_per_kg(facility_data),
@@ -38,7 +40,9 @@ def _create_pump_chart_variable_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartVariableSpeed,
 ) -> PumpModel:
-    pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
+    pump_chart = UserDefinedChartData.from_resource(
+        resource, units=facility_data.units, is_single_speed=False, default_efficiency=1.0
+    )
     return PumpModel(
         pump_chart=pump_chart,
         head_margin=_get_head_margin_joule_per_kg(facility_data),
diff --git a/src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py
index 1f57281..6817fa4 100644
--- a/src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py
@@ -159,6 +159,7 @@ class PumpProcessSimulationMapper:
                 resource,
                 units=model.units,
                 is_single_speed=isinstance(model, YamlPumpChartSingleSpeed),
+                default_efficiency=1.0,
             )
         except InvalidResourceException as error:
             raise EcalcValidationException(str(error)) from error
-- 
2.43.0


From 32aafb8b61648986aeded849e20558f5bad55bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 28/64] fix: max rate of sampled compressors varying with
 pressure is looked up at those pressures

---
 .../core/sampled/compressor_model_sampled.py     | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 517a281..efea097 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -150,13 +150,27 @@ class CompressorModelSampled:
             if self._qhull_sampled.support_max_rate:
                 return np.full(
                     shape=number_of_calculation_points,
-                    fill_value=self._qhull_sampled.get_max_rate(),  # type: ignore[call-arg]
+                    fill_value=self._get_max_rate(suction_pressures, discharge_pressures),  # type: ignore[arg-type]
                 )
             else:
                 return np.full(shape=number_of_calculation_points, fill_value=self._degenerated_rate)
         else:
             return np.full(shape=number_of_calculation_points, fill_value=np.nan)
 
+    def _get_max_rate(
+        self,
+        suction_pressures: NDArray[np.float64] | None,
+        discharge_pressures: NDArray[np.float64] | None,
+    ) -> NDArray[np.float64] | float | None:
+        """Get the max rate from the sampled data, given those pressures it varies with."""
+        if isinstance(self._qhull_sampled, CompressorModelSampled2DRatePd):
+            return self._qhull_sampled.get_max_rate(discharge_pressure=discharge_pressures)  # type: ignore[arg-type]
+        elif isinstance(self._qhull_sampled, CompressorModelSampled2DRatePs):
+            return self._qhull_sampled.get_max_rate(ps=suction_pressures)  # type: ignore[arg-type]
+        elif isinstance(self._qhull_sampled, CompressorModelSampled3D):
+            return self._qhull_sampled.get_max_rate(ps=suction_pressures, pd=discharge_pressures)  # type: ignore[arg-type]
+        return self._qhull_sampled.get_max_rate()
+
     def set_evaluation_input(
         self,
         rate: NDArray[np.float64],
-- 
2.43.0


From 94e42a6b16a09e5f8c1c12dc654f5a37c2b0d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 29/64] fix: fill values of the max rate of three-variable
 sampled compressors come from the correct ends

---
 .../compressor/core/sampled/compressor_model_sampled_3d.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
index 08207ad..14e8eab 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
@@ -813,10 +813,10 @@ def _setup_maximum_rate_projection_functions(
 
     # Sort to ensure correct fill values
     upper_rate_qh_lower_pd_points_sorted = sort_ndarray_by_column(
-        arr=upper_rate_qh_lower_pd_points, column_index=pd_axis_2d
+        arr=upper_rate_qh_lower_pd_points, column_index=ps_axis_2d
     )
     upper_rate_qh_upper_ps_points_sorted = sort_ndarray_by_column(
-        arr=upper_rate_qh_upper_ps_points, column_index=ps_axis_2d
+        arr=upper_rate_qh_upper_ps_points, column_index=pd_axis_2d
     )
     # Projection functions
     upper_rate_qh_lower_pd_function = interp1d(
-- 
2.43.0


From 04ebc101d1541bf1be0bc5ffdfdfa88d4b32763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:11 +0000
Subject: [PATCH 30/64] fix: crossover from sampled compressors with turbine
 does not require a fluid model

---
 src/libecalc/domain/process/compressor/core/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index b0b0d51..6cd3bea 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -29,6 +29,11 @@ class CompressorWithTurbineModel:
         self.compressor_model = compressor_energy_function
         self.turbine_model = turbine_model
 
+    @property
+    def _fluid_model(self) -> list[FluidModel | None] | None:
+        """The fluid model(s) of the compressor, None for sampled compressors."""
+        return getattr(self.compressor_model, "_fluid_model", None)
+
     def set_evaluation_input(
         self,
         *args,
@@ -74,7 +79,7 @@ class CompressorWithTurbineModel:
         """Expression used in optimization to find the rate that utilizes the compressor trains capacity."""
 
         self.compressor_model.set_evaluation_input(
-            fluid_model=self.compressor_model._fluid_model,
+            fluid_model=self._fluid_model,
             rate=np.asarray([standard_rate]),
             suction_pressure=np.asarray([suction_pressure]),
             discharge_pressure=np.asarray([discharge_pressure]),
@@ -103,7 +108,7 @@ class CompressorWithTurbineModel:
         assert max_standard_rate is not None
         # Check if the obtained results are within the maximum load that the turbine can deliver
         self.compressor_model.set_evaluation_input(
-            fluid_model=self.compressor_model._fluid_model,
+            fluid_model=self._fluid_model,
             rate=max_standard_rate,
             suction_pressure=suction_pressures,
             discharge_pressure=discharge_pressures,
-- 
2.43.0


From 3792157d23c411ab4579a380537410436bc63617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 31/64] fix: the power adjustment counts when limiting the max
 rate of a compressor to what its turbine can deliver

---
 .../domain/process/compressor/core/base.py     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index 6cd3bea..b7a07d8 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -57,12 +57,7 @@ class CompressorWithTurbineModel:
         energy_result = compressor_energy_function_result.get_energy_result()
         if energy_result.power is not None:
             # The compressor energy function evaluates to a power load in this case
-            load_adjusted = np.where(
-                np.asarray(energy_result.power.values) > 0,
-                np.asarray(energy_result.power.values) * self._energy_usage_adjustment_factor
-                + self._energy_usage_adjustment_constant,
-                np.asarray(energy_result.power.values),
-            )
+            load_adjusted = self._adjust_load(np.asarray(energy_result.power.values))
             turbine_result = self.turbine_model.evaluate(load=load_adjusted)
             compressor_energy_function_result.turbine_result = turbine_result
 
@@ -73,6 +68,12 @@ class CompressorWithTurbineModel:
 
         return compressor_energy_function_result
 
+    def _adjust_load(self, power: NDArray[np.float64]) -> NDArray[np.float64]:
+        """The load of the turbine given the power of the compressor."""
+        return np.where(
+            power > 0, power * self._energy_usage_adjustment_factor + self._energy_usage_adjustment_constant, power
+        )
+
     def _calculate_remaining_capacity_in_train_given_standard_rate(
         self, standard_rate: float, suction_pressure: float, discharge_pressure: float, max_power: float
     ) -> float:
@@ -88,7 +89,8 @@ class CompressorWithTurbineModel:
         energy_result = result.get_energy_result()
         if energy_result.power is None or len(energy_result.power.values) == 0:
             return 0.0  # Return 0 if no power value available
-        return float(energy_result.power.values[0]) - (max_power - POWER_CALCULATION_TOLERANCE)
+        load = float(self._adjust_load(np.asarray(energy_result.power.values))[0])
+        return load - (max_power - POWER_CALCULATION_TOLERANCE)
 
     def get_max_standard_rate(
         self,
@@ -119,7 +121,7 @@ class CompressorWithTurbineModel:
         max_power = self.turbine_model.max_power
 
         if energy_result.power is not None:
-            powers = np.asarray(energy_result.power.values)
+            powers = self._adjust_load(np.asarray(energy_result.power.values))
             for i, (power, suction_pressure, discharge_pressure) in enumerate(
                 zip(powers, suction_pressures, discharge_pressures)
             ):
-- 
2.43.0


From 22e6363c9e919fcfe2f1e13b39c8bf0e89cb1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:45 +0000
Subject: [PATCH 32/64] fix: a pump given exactly its max rate is within
 capacity also after rounding

---
 src/libecalc/domain/process/pump/pump.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/domain/process/pump/pump.py b/src/libecalc/domain/process/pump/pump.py
index e86127c..15cdf6f 100644
--- a/src/libecalc/domain/process/pump/pump.py
+++ b/src/libecalc/domain/process/pump/pump.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import math
+
 import numpy as np
 from numpy.typing import NDArray
 
@@ -11,6 +13,7 @@ from libecalc.domain.process.value_objects.chart import Chart
 from libecalc.domain.process.value_objects.chart.chart import ChartData
 
 EPSILON = 1e-15
+RELATIVE_TOLERANCE = 1e-9
 
 
 class PumpModel:
@@ -211,7 +214,14 @@ class PumpModel:
         minimum_head_at_rate = float(self._pump_chart.minimum_head_as_function_of_rate(rate_m3_per_hour))
         head = max(operational_head, minimum_head_at_rate + EPSILON)
 
-        maximum_head_at_rate = self._pump_chart.maximum_head_as_function_of_rate(rate_m3_per_hour)
+        # Running at the maximum is not outside capacity due to rounding errors, see get_max_standard_rate
+        maximum_rate = self._pump_chart.maximum_rate
+        if math.isclose(rate_m3_per_hour, maximum_rate, rel_tol=RELATIVE_TOLERANCE):
+            rate_m3_per_hour = min(rate_m3_per_hour, maximum_rate)
+
+        maximum_head_at_rate = float(self._pump_chart.maximum_head_as_function_of_rate(rate_m3_per_hour))
+        if math.isclose(head, maximum_head_at_rate, rel_tol=RELATIVE_TOLERANCE):
+            head = min(head, maximum_head_at_rate)
 
         head = _adjust_for_head_margin(
             head=head,
@@ -226,11 +236,11 @@ class PumpModel:
         """
         failure_status = (
             PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE
-            if (head > maximum_head_at_rate and rate_m3_per_hour > self._pump_chart.maximum_rate)
+            if (head > maximum_head_at_rate and rate_m3_per_hour > maximum_rate)
             else PumpFailureStatus.ABOVE_MAXIMUM_HEAD_AT_RATE
             if head > maximum_head_at_rate
             else PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE
-            if rate_m3_per_hour > self._pump_chart.maximum_rate
+            if rate_m3_per_hour > maximum_rate
             else PumpFailureStatus.NO_FAILURE
         )
 
-- 
2.43.0


From 42acb001d481916573714a3b73daa24aa7965721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:47 +0000
Subject: [PATCH 33/64] fix: the max rate of a pump at a head is right also
 with flat parts of its chart

---
 src/libecalc/domain/process/value_objects/chart/chart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/value_objects/chart/chart.py b/src/libecalc/domain/process/value_objects/chart/chart.py
index 3bd615e..4ba41b4 100644
--- a/src/libecalc/domain/process/value_objects/chart/chart.py
+++ b/src/libecalc/domain/process/value_objects/chart/chart.py
@@ -266,7 +266,7 @@ class Chart:
 
         Assumes choking:
         """
-        sorted_index = self.maximum_speed_curve.head_values.argsort()
+        sorted_index = np.lexsort((-self.maximum_speed_curve.rate_values, self.maximum_speed_curve.head_values))
         heads_at_maximum_speed = self.maximum_speed_curve.head_values[sorted_index]
         rates_at_maximum_speed = self.maximum_speed_curve.rate_values[sorted_index]
 
@@ -303,7 +303,7 @@ class Chart:
             _,
         ) = self.minimum_speed_curve.rate_head_and_efficiency_at_maximum_rate
 
-        sorted_index = self.maximum_speed_curve.head_values.argsort()
+        sorted_index = np.lexsort((-self.maximum_speed_curve.rate_values, self.maximum_speed_curve.head_values))
         heads_at_maximum_speed = self.maximum_speed_curve.head_values[sorted_index]
         rates_at_maximum_speed = self.maximum_speed_curve.rate_values[sorted_index]
 
-- 
2.43.0


From d2d0579b2359ce0a43aa98b5cf49687710a3d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:01 +0000
Subject: [PATCH 34/64] fix: search the choke pressure where a later stage's
 pressure drop is not covered

---
 .../core/train/compressor_train_common_shaft.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 0b48cd9..250b189 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -30,6 +30,7 @@ from libecalc.domain.process.core.results.compressor import TargetPressureStatus
 from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag
 from libecalc.process.fluid_stream.fluid_model import FluidModel
 from libecalc.process.fluid_stream.fluid_service import FluidService
+from libecalc.process.process_pipeline.process_error import InsufficientInletPressureError
 from libecalc.process.shaft import Shaft, SingleSpeedShaft, VariableSpeedShaft
 
 
@@ -757,13 +758,18 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         assert constraints.discharge_pressure is not None
         target_discharge_pressure = constraints.discharge_pressure
 
+        def _discharge_pressure_deviation(inlet_pressure: float) -> float:
+            try:
+                discharge_pressure = _calculate_train_result_given_inlet_pressure(inlet_pressure).discharge_pressure
+            except InsufficientInletPressureError:
+                # Choked so far that the pressure drop ahead of a later stage can not be covered, nothing is delivered
+                discharge_pressure = 0.0
+            return discharge_pressure - target_discharge_pressure
+
         result_inlet_pressure = find_root(
             lower_bound=EPSILON + self.stages[0].pressure_drop_ahead_of_stage,
             upper_bound=target_discharge_pressure,
-            func=lambda x: (
-                _calculate_train_result_given_inlet_pressure(inlet_pressure=x).discharge_pressure
-                - target_discharge_pressure
-            ),
+            func=_discharge_pressure_deviation,
         )
 
         train_result = _calculate_train_result_given_inlet_pressure(inlet_pressure=result_inlet_pressure)
-- 
2.43.0


From 2c782df53efe8bdd057bce46e0c649c01cfeaef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:42 +0000
Subject: [PATCH 35/64] fix: hold the power limit for individual ASV pressure
 control and the maximum discharge pressure

---
 .../compressor/core/train/compressor_train_common_shaft.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 250b189..bf821ea 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -699,6 +699,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
                 train_result.stage_results = new_train_result.stage_results
                 train_result.outlet_stream = new_train_result.outlet_stream
+                train_result.above_maximum_power = new_train_result.above_maximum_power
                 train_result.target_pressure_status = self.check_target_pressures(
                     constraints=constraints,
                     results=train_result,
@@ -901,6 +902,11 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             outlet_stream=stage_result.outlet_stream,
             speed=self.shaft.get_speed(),
             stage_results=stage_results,
+            above_maximum_power=(
+                sum(stage_result.power_megawatt for stage_result in stage_results) > self.maximum_power
+                if self.maximum_power
+                else False
+            ),
             target_pressure_status=target_pressure_status,
         )
 
-- 
2.43.0


From e2182a2eb418dd45e710f051c4e1cc689c64cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:31 +0000
Subject: [PATCH 36/64] fix: report a common ASV rate above a stage's capacity
 instead of ending the run

---
 .../compressor/core/train/compressor_train_common_shaft.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index bf821ea..6f401b8 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1096,6 +1096,12 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 - target_discharge_pressure
             ),
         )
+        train_result_for_result_mass_rate = _calculate_train_result_given_mass_rate(
+            mass_rate_kg_per_hour=result_mass_rate
+        )
+        if train_result_for_result_mass_rate.chart_area_status == ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE:
+            # the common mass rate needed is above the capacity of one of the stages
+            return train_result_for_result_mass_rate
         # This mass rate is the mass rate to use as mass rate after asv for each stage,
         # thus the asv in each stage should be set to correspond to this mass rate
         return _calculate_train_result_given_additional_mass_rate(
-- 
2.43.0


From b3accc0bf1a514d49b4ce881596f9d58400ccc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 37/64] fix: search the maximum rate within the power limit
 from zero rate

---
 .../compressor/core/train/compressor_train_common_shaft.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 6f401b8..c52a8fa 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -591,7 +591,9 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 result = self._fluid_service.mass_rate_to_standard_rate(
                     fluid_model,
                     find_root(
-                        lower_bound=result_with_minimum_rate.stage_results[0].mass_rate_asv_corrected_kg_per_hour,
+                        lower_bound=self._fluid_service.standard_rate_to_mass_rate(
+                            fluid_model=fluid_model, standard_rate_m3_per_day=EPSILON
+                        ),
                         upper_bound=rate_to_return,
                         func=lambda x: (
                             self.evaluate_given_constraints(
-- 
2.43.0


From 1278c48e60f6ac081b4ed78e615492a5ea6d2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 38/64] fix: recirculate up to the stage capacity when liquid
 is removed ahead of it

---
 src/libecalc/domain/process/compressor/core/train/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/stage.py b/src/libecalc/domain/process/compressor/core/train/stage.py
index 58eb21b..20c640e 100644
--- a/src/libecalc/domain/process/compressor/core/train/stage.py
+++ b/src/libecalc/domain/process/compressor/core/train/stage.py
@@ -315,7 +315,7 @@ class CompressorTrainStage:
 
         max_recirculation = max(
             maximum_rate * float(result_no_recirculation.inlet_stream.density)
-            - inlet_stream_stage.mass_rate_kg_per_h
+            - result_no_recirculation.inlet_stream.mass_rate_kg_per_h
             - EPSILON,
             0,
         )
-- 
2.43.0


From 6cc6beff7a91de299af1be88aad5498564d209a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 39/64] fix: count the pressure drop ahead of the first stage
 when bounding the common ASV rate

---
 .../compressor/core/train/compressor_train_common_shaft.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index c52a8fa..de38301 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -944,7 +944,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         # Iterate on rate until pressures are met
         density_train_inlet_fluid = self._fluid_service.create_fluid(
             fluid_model=fluid_model,
-            pressure_bara=constraints.suction_pressure,
+            pressure_bara=constraints.suction_pressure - self.stages[0].pressure_drop_ahead_of_stage,
             temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
         ).density
 
-- 
2.43.0


From 411393a1b761b2c798ca8226ea2219dcd61495b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 40/64] fix: do not search a speed for the maximum rate of a
 single speed train

---
 .../compressor/core/train/compressor_train_common_shaft.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index de38301..f97747c 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -515,7 +515,10 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         # Solution scenario 4. Solution at the "Stone wall".
         else:
             # Ensuring that the maximum mass rate at min speed is valid for the whole train.
-            if not result_max_mass_rate_at_min_speed_first_stage.within_capacity:
+            if self.minimum_speed == self.maximum_speed:
+                # one speed only, there is no range of speeds to search
+                result_max_mass_rate_at_min_speed = result_max_mass_rate_at_max_speed
+            elif not result_max_mass_rate_at_min_speed_first_stage.within_capacity:
                 max_mass_rate_at_min_speed = maximize_x_given_boolean_condition_function(
                     x_min=EPSILON,
                     x_max=max_mass_rate_at_min_speed_first_stage,
-- 
2.43.0


From adf60e6503e3a56ed790ee530794b6b7e8e37c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 41/64] fix: keep the highest head of the input within a chart
 generated from it

---
 .../value_objects/chart/compressor/chart_creator.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py b/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
index 2bdf860..ec5b22e 100644
--- a/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
+++ b/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
@@ -75,9 +75,15 @@ class CompressorChartCreator:
         maximum_actual_rate = np.max(actual_volume_rates_m3_per_hour)
         maximum_head_value = np.max(heads_joule_per_kg)
 
-        # Values to scale input with
-        scaling_rate_to_unified = np.divide(maximum_actual_rate, maximum_rate_on_maximum_speed_curve_unified)
-        scaling_head_to_unified = np.divide(maximum_head_value, maximum_head_on_maximum_speed_curve_unified)
+        # Values to scale input with. The margin keeps the points defining the chart from ending up outside of it, when
+        # the chart is scaled back and floating point numbers are rounded
+        rounding_margin = 1 + 1e-10
+        scaling_rate_to_unified = (
+            np.divide(maximum_actual_rate, maximum_rate_on_maximum_speed_curve_unified) * rounding_margin
+        )
+        scaling_head_to_unified = (
+            np.divide(maximum_head_value, maximum_head_on_maximum_speed_curve_unified) * rounding_margin
+        )
 
         initial_design_head_unified = 1
         initial_design_rate_unified = 1
-- 
2.43.0


From 5d0ba275a754591986a357e2e6317ce258c2e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:59 +0000
Subject: [PATCH 42/64] fix: do not add a stage for rounding of the number of
 stages a pressure ratio takes

---
 .../yaml/mappers/simplified_train_mapping_utils.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
index 0a35293..1ea38aa 100644
--- a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
+++ b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
@@ -78,4 +78,5 @@ def calculate_number_of_stages(
     maximum_train_pressure_ratio = max(pressure_ratios)
 
     x = math.log(maximum_train_pressure_ratio) / math.log(maximum_pressure_ratio_per_stage)
-    return math.ceil(x)
+    # A ratio that is exactly a power of the allowed one may come out just above the whole number
+    return math.ceil(x - 1e-9)
-- 
2.43.0


From 98cf4f9d526c0dbf8e3ea30cb351447fe0d3eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 43/64] fix: give the streams of a compressor train to the
 ports they are connected to

---
 .../yaml/mappers/consumer_function_mapper.py  | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 30789aa..a81f840 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -138,7 +138,10 @@ from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart import (
     YamlSingleSpeedChart,
     YamlVariableSpeedChart,
 )
-from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_stages import YamlUnknownCompressorStages
+from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_stages import (
+    YamlCompressorStageMultipleStreams,
+    YamlUnknownCompressorStages,
+)
 from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains import (
     YamlMultipleStreamsStreamIngoing,
     YamlMultipleStreamsStreamOutgoing,
@@ -266,6 +269,30 @@ def validate_pressures(
                     )
 
 
+def _streams_in_port_order(model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures) -> list[int]:
+    """The positions in STREAMS of the streams, in the order of the ports of the compressor train.
+
+    The ports are the main inlet, and then for each stage its outgoing streams followed by its (other) ingoing streams.
+    Streams that are not connected to any stage are last.
+    """
+
+    def connected(stage_config: YamlCompressorStageMultipleStreams, stream_type: type) -> list[int]:
+        return [
+            i
+            for i, stream in enumerate(model.streams)
+            if stream.name in (stage_config.stream or []) and isinstance(stream, stream_type)
+        ]
+
+    ordered: list[int] = []
+    for stage_index, stage_config in enumerate(model.stages):
+        ingoing = connected(stage_config, YamlMultipleStreamsStreamIngoing)
+        if stage_index == 0:
+            ordered.extend(ingoing[:1])
+        ordered.extend(connected(stage_config, YamlMultipleStreamsStreamOutgoing))
+        ordered.extend(ingoing)
+    return list(dict.fromkeys([*ordered, *range(len(model.streams))]))
+
+
 class CompressorModelMapper:
     def __init__(self, resources: Resources, reference_service: ReferenceService, configuration: YamlValidator):
         self._reference_service = reference_service
@@ -761,7 +788,7 @@ class CompressorModelMapper:
             self._get_fluid_model(stream_config.fluid_model)
             if isinstance(stream_config, YamlMultipleStreamsStreamIngoing)
             else None
-            for stream_config in model.streams
+            for stream_config in (model.streams[i] for i in _streams_in_port_order(model))
         ]
 
         if not any(fluid_models):
@@ -816,6 +843,15 @@ class CompressorModelMapper:
             power_interpolation_values=power_interpolation_values,
         )
 
+    def get_stream_order(self, reference: str) -> list[int] | None:
+        """The order the streams of a model are expected in when it is evaluated, None if it does not have several streams"""
+        model = self._reference_service.get_compressor_model(reference)
+        if isinstance(model, YamlCompressorWithTurbine):
+            return self.get_stream_order(model.compressor_model)
+        if isinstance(model, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures):
+            return _streams_in_port_order(model)
+        return None
+
     def create_compressor_model(
         self,
         reference: str,
@@ -1201,6 +1237,10 @@ class ConsumerFunctionMapper:
             for rate_expression in model.rate_per_stream
         ]
 
+        stream_order = self._compressor_model_mapper.get_stream_order(model.compressor_train_model)
+        if stream_order is not None and len(stream_order) == len(rates_per_stream):
+            rates_per_stream = [rates_per_stream[i] for i in stream_order]
+
         rates_per_stream_values = [rates.get_stream_day_values() for rates in rates_per_stream]
         sum_of_rates = [sum(values) for values in zip(*rates_per_stream_values)]
 
-- 
2.43.0


From 97bf7bb6095c711bb32a8a6e814c681f12427ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 44/64] fix: do not look for the interstage pressure within the
 parts of a split train

---
 .../compressor/core/train/compressor_train_common_shaft.py      | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index f97747c..9dc521c 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1249,7 +1249,6 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             calculate_max_rate=self.calculate_max_rate if self.calculate_max_rate is not None else False,
             maximum_power=self.maximum_power,
             pressure_control=pressure_control_first_part,
-            stage_number_interstage_pressure=self.stage_number_interstage_pressure,
         )
 
         compressor_train_first_part._fluid_model = fluid_model_first_part
@@ -1277,7 +1276,6 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             calculate_max_rate=self.calculate_max_rate if self.calculate_max_rate is not None else False,
             maximum_power=self.maximum_power,
             pressure_control=pressure_control_last_part,
-            stage_number_interstage_pressure=self.stage_number_interstage_pressure,
         )
         compressor_train_last_part._fluid_model = fluid_model_last_part
 
-- 
2.43.0


From 5c19270edea6ba469425a56ea577a5c6c87d25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 45/64] fix: compare the interstage pressure with that after
 the choke of the first part

---
 src/libecalc/domain/process/compressor/core/train/base.py   | 6 +++++-
 .../compressor/core/train/compressor_train_common_shaft.py  | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 49a2051..e43f8ed 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -308,11 +308,13 @@ class CompressorTrainModel(ABC):
         self,
         constraints: CompressorTrainEvaluationInput,
         results: CompressorTrainResultSingleTimeStep | list[CompressorTrainStageResultSingleTimeStep],
+        intermediate_pressure: float | None = None,
     ) -> TargetPressureStatus:
         """Check to see how the calculated pressures compare to the required pressures
         Args:
             constraints: The evaluation constraints given to the evaluation
             results: The results from the compressor train evaluation
+            intermediate_pressure: The calculated intermediate pressure, when it differs from what the stage gives (choked)
 
         Returns:
             TargetPressureStatus: The status of the target pressures
@@ -326,7 +328,9 @@ class CompressorTrainModel(ABC):
             train_suction_pressure = results.suction_pressure
             calculated_discharge_pressure = results.discharge_pressure
             stage_suction_pressure = results.stage_results[0].inlet_stream.pressure_bara
-            if constraints.rates is not None:
+            if intermediate_pressure is not None:
+                calculated_intermediate_pressure = intermediate_pressure
+            elif constraints.rates is not None:
                 calculated_intermediate_pressure = (
                     results.stage_results[self.stage_number_interstage_pressure - 1].discharge_pressure
                     if self.stage_number_interstage_pressure is not None
diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 9dc521c..2c4a421 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1473,6 +1473,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         target_pressure_status = self.check_target_pressures(
             constraints=constraints,
             results=train_result,
+            intermediate_pressure=compressor_train_results_to_return_first_part.discharge_pressure,
         )
 
         train_result.target_pressure_status = target_pressure_status
-- 
2.43.0


From e3e6fbdfbb427026738ba8477edb58224fde9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 46/64] fix: control the pressure of a train part that has to
 run fast because of its rate

---
 .../train/compressor_train_common_shaft.py    | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 2c4a421..238cef1 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1,4 +1,3 @@
-import math
 from copy import deepcopy
 from functools import partial
 from typing import Self
@@ -1380,15 +1379,18 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             upper_bound_for_speed=self.maximum_speed,  # original, complete compressor train
         )
 
-        if math.isclose(shaft_speed_first_part, self.minimum_speed, rel_tol=EPSILON):
-            compressor_train_results_first_part_with_optimal_speed_result = (
-                compressor_train_first_part.evaluate_with_pressure_control_given_constraints(
-                    constraints=constraints_first_part,
-                )
+        compressor_train_results_first_part_with_optimal_speed_result = (
+            compressor_train_first_part.calculate_compressor_train(
+                constraints=constraints_first_part,
             )
-        else:
+        )
+        if (
+            compressor_train_results_first_part_with_optimal_speed_result.target_pressure_status
+            == TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
+        ):
+            # The speed can not be lowered further, because of the charts or because of the capacity needed for the rate
             compressor_train_results_first_part_with_optimal_speed_result = (
-                compressor_train_first_part.calculate_compressor_train(
+                compressor_train_first_part.evaluate_with_pressure_control_given_constraints(
                     constraints=constraints_first_part,
                 )
             )
@@ -1410,15 +1412,18 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             upper_bound_for_speed=self.maximum_speed,
         )
 
-        if math.isclose(shaft_speed_last_part, self.minimum_speed, rel_tol=EPSILON):
-            compressor_train_results_last_part_with_optimal_speed_result = (
-                compressor_train_last_part.evaluate_with_pressure_control_given_constraints(
-                    constraints=constraints_last_part,
-                )
+        compressor_train_results_last_part_with_optimal_speed_result = (
+            compressor_train_last_part.calculate_compressor_train(
+                constraints=constraints_last_part,
             )
-        else:
+        )
+        if (
+            compressor_train_results_last_part_with_optimal_speed_result.target_pressure_status
+            == TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
+        ):
+            # The speed can not be lowered further, because of the charts or because of the capacity needed for the rate
             compressor_train_results_last_part_with_optimal_speed_result = (
-                compressor_train_last_part.calculate_compressor_train(
+                compressor_train_last_part.evaluate_with_pressure_control_given_constraints(
                     constraints=constraints_last_part,
                 )
             )
-- 
2.43.0


From 51083cd07834f04902c775a0cf3d4e84b0278623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:33 +0000
Subject: [PATCH 47/64] fix: take the part of the variables within a period
 reaching beyond them

---
 src/libecalc/common/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/variables.py b/src/libecalc/common/variables.py
index 77ee09a..02b88e2 100644
--- a/src/libecalc/common/variables.py
+++ b/src/libecalc/common/variables.py
@@ -77,8 +77,8 @@ class VariablesMap:
 
         # Check if the start and end of the period of interest are equal to dates in the global time vector
         if period_start in self._time_vector and period_end in self._time_vector:
-            start_index = self._time_vector.index(period.start)
-            end_index = self._time_vector.index(period.end)
+            start_index = self._time_vector.index(period_start)
+            end_index = self._time_vector.index(period_end)
         else:
             raise ProgrammingError(
                 "Trying to access a period that does not exist in the global time vector. Please contact eCalc support."
-- 
2.43.0


From 5d31ca68728c9b77eb41c6c25b15e9ca3bf55988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 48/64] fix: give each item its own share whatever the order of
 the overflows

---
 .../process/stream_distribution/common_stream_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 71b0aef..6d24319 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -66,7 +66,9 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
         adjusted_rates: dict[T, float] = {}
-        for item_id, rate in zip(self._get_sorted_items(), self._rates, strict=True):
+        own_rates = dict(zip(self._items, self._rates, strict=True))
+        for item_id in self._get_sorted_items():
+            rate = own_rates[item_id]
             overflow = self._get_overflow_out(item_id)
             overflow_rate = sum(overflow_map[item_id])
             current_rate = rate + overflow_rate
-- 
2.43.0


From 386cfeaae1a5c93410887ccfa45069a35ea16bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 49/64] fix: hand on a whole rate as overflow without a
 rounding residue

---
 .../process/stream_distribution/common_stream_distribution.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 6d24319..cabdd25 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -81,7 +81,7 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
                     pressure_bara=self._inlet_stream.pressure_bara,
                 )
                 excess_rate = item.get_excess_rate(stream)
-                handled_rate = current_rate - excess_rate
+                handled_rate = stream.standard_rate_sm3_per_day - excess_rate
                 overflow_map[overflow.to_id].append(excess_rate)
                 adjusted_rates[item_id] = handled_rate
             else:
-- 
2.43.0


From c85c74e84d69678a317f41d21adeffd8c5af4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:33 +0000
Subject: [PATCH 50/64] fix: take out all of a stream without losing the
 pipeline to round-off

---
 .../process/process_units/direct_splitter.py       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/process_units/direct_splitter.py b/src/libecalc/process/process_units/direct_splitter.py
index a7d6fb0..24ce273 100644
--- a/src/libecalc/process/process_units/direct_splitter.py
+++ b/src/libecalc/process/process_units/direct_splitter.py
@@ -1,7 +1,9 @@
+from math import isclose
 from typing import Final
 
 from libecalc.common.units import UnitConstants
 from libecalc.process.fluid_stream.fluid_stream import FluidStream
+from libecalc.process.process_pipeline.process_error import OfftakeExceedsInletError
 from libecalc.process.process_pipeline.process_unit import ProcessUnit, ProcessUnitId
 
 
@@ -17,7 +19,17 @@ class DirectSplitter(ProcessUnit):
         removed_mass_kg_per_h = (
             self._split_rate * inlet_stream.standard_density_gas_phase_after_flash / UnitConstants.HOURS_PER_DAY
         )
-        return inlet_stream.with_mass_rate(inlet_stream.mass_rate_kg_per_h - removed_mass_kg_per_h)
+        remaining_mass_kg_per_h = inlet_stream.mass_rate_kg_per_h - removed_mass_kg_per_h
+        if remaining_mass_kg_per_h < 0.0:
+            if not isclose(removed_mass_kg_per_h, inlet_stream.mass_rate_kg_per_h, rel_tol=1e-9):
+                raise OfftakeExceedsInletError(
+                    process_unit_id=self._id,
+                    available_rate=inlet_stream.standard_rate_sm3_per_day,
+                    offtake_rate=self._split_rate,
+                )
+            # All of the stream is recirculated, what is missing is round-off
+            remaining_mass_kg_per_h = 0.0
+        return inlet_stream.with_mass_rate(remaining_mass_kg_per_h)
 
     def set_split_rate(self, split_rate: float):
         self._split_rate = split_rate
-- 
2.43.0


From fb8ff77f7569910df9538595dac2f6d98aaad7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 51/64] fix: return the recirculation that belongs to the choke
 that was found

---
 .../process/process_solver/pressure_control/upstream_choke.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index 7eb2d1a..a80d8fc 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -78,6 +78,9 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
             return self._simulator.run(inlet_stream=inlet_stream)
 
         finding = finder.find(choke_func)
+        if finding.success:
+            # The search does not necessarily end with evaluating the choke it returns
+            choke_func(finding.configuration)
         choke_config = Configuration(
             configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration
         )
-- 
2.43.0


From 2a88a9b4f739bb703b94ebdcedddcbc048e22666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:47 +0000
Subject: [PATCH 52/64] fix: find the speed closely enough for its outlet
 pressure to count as the target

---
 .../process/process_solver/anti_surge/common_asv.py        | 2 +-
 src/libecalc/process/process_solver/solver_assembly.py     | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/process/process_solver/anti_surge/common_asv.py b/src/libecalc/process/process_solver/anti_surge/common_asv.py
index 1688da7..1c0550e 100644
--- a/src/libecalc/process/process_solver/anti_surge/common_asv.py
+++ b/src/libecalc/process/process_solver/anti_surge/common_asv.py
@@ -71,7 +71,7 @@ class CommonASVAntiSurgeStrategy(AntiSurgeStrategy):
         # target_pressure=None means: "solve only for within-capacity feasibility",
         # not for meeting any pressure constraint.
         finder = RecirculationLoopRateFinder(
-            search_strategy=Bisect(tolerance=10e-3),
+            search_strategy=Bisect(),
             root_finding_strategy=self._root_finding_strategy,
             recirculation_rate_boundary=boundary,
             target_pressure=None,  # capacity only
diff --git a/src/libecalc/process/process_solver/solver_assembly.py b/src/libecalc/process/process_solver/solver_assembly.py
index 4f7ddc5..e188097 100644
--- a/src/libecalc/process/process_solver/solver_assembly.py
+++ b/src/libecalc/process/process_solver/solver_assembly.py
@@ -41,6 +41,8 @@ from libecalc.process.process_units.choke import Choke
 from libecalc.process.process_units.compressor import Compressor
 from libecalc.process.shaft import VariableSpeedShaft
 
+SPEED_TOLERANCE = 1e-8
+
 
 @value_object
 class ProcessSolverSystem:
@@ -98,6 +100,9 @@ def assemble_solver(
         root_finding_strategy: Numerical solver strategy.  Defaults to
             ScipyRootFindingStrategy.
     """
+    # The speed is found more closely, as the outlet pressure must end up within the pressure tolerance of the target.
+    # If it does not, it is left to the pressure control, which can only lower the pressure.
+    speed_root_finding_strategy = root_finding_strategy or ScipyRootFindingStrategy(tolerance=SPEED_TOLERANCE)
     if root_finding_strategy is None:
         root_finding_strategy = ScipyRootFindingStrategy()
 
@@ -134,7 +139,7 @@ def assemble_solver(
         runner=runner,
         anti_surge_strategy=anti_surge_strategy,
         pressure_control_strategy=pressure_control_strategy,
-        root_finding_strategy=root_finding_strategy,
+        root_finding_strategy=speed_root_finding_strategy,
         speed_boundary=shaft.get_speed_boundary(),
     )
 
-- 
2.43.0


From e84ffff4761ea9fb7a44736aa2b71feb3c416e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 53/64] fix: look for an upstream choke from no choke at all

---
 .../process_solver/pressure_control/upstream_choke.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index a80d8fc..68cb182 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -54,10 +54,10 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
         target_pressure: FloatConstraint,
         inlet_stream: FluidStream,
     ) -> Solution[Sequence[Configuration[RecirculationConfiguration | ChokeConfiguration]]]:
-        # Use a small margin to avoid evaluating exactly at the physical/numerical extremes:
-        # ΔP = 0 (no choke) and ΔP = inlet_pressure (zero/negative suction pressure).
+        # From no choke at all, as the ΔP needed may be smaller than any margin, to a small margin from the numerical
+        # extreme ΔP = inlet_pressure (zero/negative suction pressure).
         delta_pressure_boundary = Boundary(
-            min=PRESSURE_CALCULATION_TOLERANCE,
+            min=0.0,
             max=inlet_stream.pressure_bara - PRESSURE_CALCULATION_TOLERANCE,
         )
 
-- 
2.43.0


From c3530a6ee664bfcdb5cf59e69ee0569928f4fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:22 +0000
Subject: [PATCH 54/64] fix: leave a rate the pipeline can take when finding
 what is too much

---
 .../process/process_solver/feasibility_solver.py    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/process/process_solver/feasibility_solver.py b/src/libecalc/process/process_solver/feasibility_solver.py
index a2ca9b1..1e55ff6 100644
--- a/src/libecalc/process/process_solver/feasibility_solver.py
+++ b/src/libecalc/process/process_solver/feasibility_solver.py
@@ -58,14 +58,13 @@ class FeasibilitySolver:
         upper_bound_sm3_per_day: float,
     ) -> float:
         boundary = Boundary(min=0.0, max=upper_bound_sm3_per_day)
+
+        def probe(rate: float) -> BisectResult:
+            feasible = self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure)
+            return BisectResult(higher=feasible, accepted=feasible)
+
         try:
-            return self._search_strategy.search(
-                boundary=boundary,
-                func=lambda rate: BisectResult(
-                    higher=self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure),
-                    accepted=True,
-                ),
-            )
+            return self._search_strategy.search(boundary=boundary, func=probe)
         except DidNotConvergeError:
             return 0.0
 
-- 
2.43.0


From e13ee23a25ea31799a6efd74ea8d7e8a1e6a5de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 55/64] fix: report a compressor train sharing its name with
 another reference instead of crashing

---
 .../yaml/yaml_types/models/yaml_compressor_trains.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
index 8d54650..ee16aae 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
@@ -152,7 +152,7 @@ class YamlSimplifiedVariableSpeedCompressorTrain(YamlCompressorTrainBase):
     @model_validator(mode="after")
     def check_compressor_chart(self, info: ValidationInfo):
         if info.context is not None:
-            train = info.context["model_types"][self.name].compressor_train
+            train = self.compressor_train
             allowed_charts_simplified_trains = [
                 YamlChartType.GENERIC_FROM_INPUT.value,
                 YamlChartType.GENERIC_FROM_DESIGN_POINT.value,
-- 
2.43.0


From 52a2688f9c6800ecf56c31051ec26c6afe82042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 56/64] fix: report a consumer whose fuel is only defined
 outside the period instead of crashing

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 5311460..11af586 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -214,6 +214,9 @@ class EcalcModelMapper:
             raise MissingFuelReference()
 
         time_adjusted_fuel = define_time_model_for_period(fuel, target_period=self._target_period)
+        if not time_adjusted_fuel:
+            # No fuel is defined in the evaluated period
+            raise MissingFuelReference()
 
         temporal_fuel_model = {}
         for period, fuel in time_adjusted_fuel.items():
-- 
2.43.0


From e62ad2ffa56da3a170c565d3d67115c86d9e134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 57/64] fix: reject a model without installations instead of
 crashing

---
 .../presentation/yaml/yaml_types/components/yaml_asset.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py b/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
index dda59ef..bac6f52 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
@@ -137,6 +137,13 @@ class YamlAsset(YamlBase):
         description="Global end date for eCalc calculations in <YYYY-MM-DD> format.\n\n$ECALC_DOCS_KEYWORDS_URL/END",
     )
 
+    @field_validator("installations", mode="after")
+    @classmethod
+    def check_some_installation(cls, installations):
+        if len(installations) == 0:
+            raise ValueError("At least one installation must be specified.")
+        return installations
+
     @model_validator(mode="after")
     def validate_unique_component_names(self, info: ValidationInfo):
         """Ensure unique component names in model."""
-- 
2.43.0


From 0d7df79bcdd9cc6a22142e66472d4ed962878c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 58/64] fix: reject temporal models with unsorted dates
 wherever they are used

---
 .../yaml/yaml_types/yaml_temporal_model.py          | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
index ea9b5bb..50bb0ad 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
@@ -1,6 +1,6 @@
 from typing import Annotated, Any, Literal, TypeVar, Union
 
-from pydantic import Discriminator, Tag
+from pydantic import AfterValidator, Discriminator, Tag
 
 from libecalc.common.errors.exceptions import InvalidDateException
 from libecalc.common.time_utils import is_temporal_model
@@ -32,12 +32,23 @@ def discriminate_temporal_model(v: Any) -> Literal["single", "temporal"]:
     return "single"
 
 
+def check_sorted_dates(temporal_model: dict[YamlDefaultDatetime, Any]) -> dict[YamlDefaultDatetime, Any]:
+    dates = list(temporal_model.keys())
+    if dates != sorted(dates):
+        raise ValueError(
+            "Dates in a temporal model should be sorted with the earliest date first. "
+            f"Got {', '.join(str(date) for date in dates)}"
+        )
+    return temporal_model
+
+
 TModel = TypeVar("TModel")
 YamlTemporalModel = Annotated[
     Union[
         Annotated[TModel, Tag("single")],
         Annotated[
             dict[YamlDefaultDatetime, TModel],
+            AfterValidator(check_sorted_dates),
             Tag("temporal"),
         ],
     ],
-- 
2.43.0


From 796b735561e361e75dcafcdfb44d0c17b34e860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 59/64] fix: reject incomplete operational settings and
 crossovers to consumers that do not exist

---
 ...yaml_energy_usage_model_consumer_system.py | 41 +++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
index 8c5bac0..a778bdf 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
@@ -19,6 +19,33 @@ from libecalc.presentation.yaml.yaml_types.models.model_reference_validation imp
 from libecalc.presentation.yaml.yaml_types.models.yaml_enums import YamlChartType
 
 
+def _check_operational_settings(
+    operational_settings: list["YamlCompressorSystemOperationalSetting"],
+    total_system_rate: YamlExpressionType | None,
+    number_of_consumers: int,
+) -> None:
+    """Validate what the operational settings of compressor and pump systems have in common."""
+    if len(operational_settings) == 0:
+        raise ValueError("At least one operational setting must be specified.")
+
+    for setting_num, setting in enumerate(operational_settings, start=1):
+        if setting.rate_fractions is not None and total_system_rate is None:
+            raise ValueError(f"Operational setting {setting_num}: RATE_FRACTIONS requires TOTAL_SYSTEM_RATE.")
+
+        crossover = setting.crossover or []
+        if len(crossover) > number_of_consumers:
+            raise ValueError(
+                f"Operational setting {setting_num}: CROSSOVER has {len(crossover)} values "
+                f"but system has {number_of_consumers} consumers."
+            )
+        for receiver in crossover:
+            if not 0 <= receiver <= number_of_consumers:
+                raise ValueError(
+                    f"Operational setting {setting_num}: CROSSOVER refers to consumer {receiver} "
+                    f"but system has {number_of_consumers} consumers. Use 0 for no crossover."
+                )
+
+
 class YamlCompressorSystemCompressor(YamlBase):
     name: str = Field(
         ...,
@@ -69,6 +96,13 @@ class YamlCompressorSystemOperationalSetting(YamlBase):
         description="Set suction pressure equal for all consumers in a consumer system operational setting. \n\n$ECALC_DOCS_KEYWORDS_URL/SUCTION_PRESSURE",
     )
 
+    @model_validator(mode="after")
+    def ensure_rates(self):
+        if self.rates is None and self.rate_fractions is None:
+            raise ValueError("One of RATES or RATE_FRACTIONS must be specified.")
+
+        return self
+
     @model_validator(mode="after")
     def ensure_mutually_exclusive_discharge_pressures(self):
         if self.discharge_pressure is None and self.discharge_pressures is None:
@@ -168,6 +202,7 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
         discharge pressures as there are compressors in the system.
         """
         num_compressors = len(self.compressors)
+        _check_operational_settings(self.operational_settings, self.total_system_rate, num_compressors)
 
         for i, setting in enumerate(self.operational_settings):
             setting_num = i + 1  # 1-indexed for user-facing error messages
@@ -264,6 +299,7 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
         discharge pressures, and fluid densities as there are pumps in the system.
         """
         num_pumps = len(self.pumps)
+        _check_operational_settings(self.operational_settings, self.total_system_rate, num_pumps)
 
         for i, setting in enumerate(self.operational_settings):
             setting_num = i + 1  # 1-indexed for user-facing error messages
@@ -302,6 +338,11 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
                     )
 
             # Validate fluid_densities (pump-specific)
+            if not setting.fluid_densities and self.fluid_density is None:
+                raise ValueError(
+                    f"Operational setting {setting_num}: FLUID_DENSITIES must be specified "
+                    f"when FLUID_DENSITY is not specified for the system."
+                )
             if setting.fluid_densities is not None:
                 if len(setting.fluid_densities) != num_pumps:
                     raise ValueError(
-- 
2.43.0


From d557ec31f8c3345ae02461475dffd1acf38dfb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 60/64] fix: report a generic chart used in a non-simplified
 compressor train instead of crashing

---
 .../yaml/mappers/consumer_function_mapper.py          | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index a81f840..ac0ae90 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -355,7 +355,16 @@ class CompressorModelMapper:
         control_margin: float | None,
     ) -> ChartData:
         model = self._reference_service.get_compressor_chart(reference)
-        assert isinstance(model, YamlSingleSpeedChart | YamlVariableSpeedChart)  # Generic charts are handled separately
+        if not isinstance(model, YamlSingleSpeedChart | YamlVariableSpeedChart):
+            # Generic charts are handled separately, they can only be used in simplified compressor trains
+            raise ModelValidationException(
+                errors=[
+                    self._create_error(
+                        f"{model.chart_type.value} compressor chart is only supported for simplified compressor trains.",
+                        reference,
+                    )
+                ]
+            )
         try:
             if isinstance(model, YamlSingleSpeedChart):
                 return single_speed_compressor_chart_mapper(
-- 
2.43.0


From 910f6c4bb55fe7503c7371c2616ff5594c9f2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 61/64] fix: report a simplified train with unknown stages
 referring to something other than a chart instead of crashing

---
 .../yaml/yaml_types/models/yaml_compressor_trains.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
index ee16aae..23b9dcd 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
@@ -174,9 +174,10 @@ class YamlSimplifiedVariableSpeedCompressorTrain(YamlCompressorTrainBase):
             else:
                 # Unknown compressor stages
                 compressor_chart = info.context["model_types"][train.compressor_chart]
-                if compressor_chart.chart_type not in allowed_charts_simplified_trains:
+                chart_type = getattr(compressor_chart, "chart_type", None)
+                if chart_type is not None and chart_type not in allowed_charts_simplified_trains:
                     raise ValueError(
-                        f"{compressor_chart.chart_type} compressor chart is not supported for {self.type}. "
+                        f"{chart_type} compressor chart is not supported for {self.type}. "
                         f"Allowed charts are {', '.join(allowed_charts_simplified_trains)}."
                     )
         return self
-- 
2.43.0


From 686984d44753a08f1a44d76b59792e2554ea0773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:11 +0000
Subject: [PATCH 62/64] fix: refuse an outlet constraint without process units
 after the last named constraint

---
 .../presentation/yaml/mappers/process/process_partitioner.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
index 5e6cdc7..22ff88b 100644
--- a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
+++ b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
@@ -70,6 +70,10 @@ class ProcessPartitioner:
             current_units = []
 
         if terminal_constraint is not None:
+            if not current_units:
+                raise EcalcValidationException(
+                    "A constraint at the process pipeline outlet must have process units after the last named constraint."
+                )
             sections.append(
                 MappedSection(
                     process_units=current_units,
-- 
2.43.0


From 671c9a064ac32c23b601407142a41dad711fa4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:11 +0000
Subject: [PATCH 63/64] fix: refuse a pipeline event whose CHANGE_TARGET is not
 a unit of the pipeline

---
 .../yaml/mappers/process_simulation_mapper.py            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 17a9239..107def1 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -271,10 +271,17 @@ class ProcessSimulationMapper:
                         f"Pipeline event CHANGE_TO '{change_to_yaml_process_unit}' does not match any compressor (chart) unit."
                     )
 
+            change_target = unit_name_to_id.get(yaml_event.change_target)
+            if change_target is None:
+                raise EcalcValidationException(
+                    f"Pipeline event CHANGE_TARGET '{yaml_event.change_target}' does not refer to a named process unit "
+                    f"in process pipeline '{yaml_pipeline.name}'."
+                )
+
             events.append(
                 PipelineEvent(
                     action=PipelineEventAction(yaml_event.type.value),
-                    change_target=unit_name_to_id[yaml_event.change_target],
+                    change_target=change_target,
                     change_to=change_to_unit,
                     change_type=PipelineEventChangeType(yaml_event.change_type.value),
                     change_time=ecalc_event.start,
-- 
2.43.0


From c5b9df2ac43a98fbd96c19807fc6967afd3dd5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:11 +0000
Subject: [PATCH 64/64] fix: put the target pressure of a process section at
 the end of the section

---
 .../yaml/mappers/process_simulation_mapper.py            | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 107def1..2096aa7 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -443,12 +443,9 @@ class ProcessSimulationMapper:
                 zip(process_pipeline_sections, mapped_sections, assembled_sections, strict=True)
             ):
                 # For the first n-1 sections, we put it at the last unit, for the nth section we put it before the outlet unit
-                constraint_position = -2
-                if nr == len(process_pipeline_sections):
-                    constraint_position = -1
-                target_process_unit_id = pipeline_section.get_process_units()[
-                    constraint_position
-                ].get_id()  # The last unit is the outlet, so we take the one before that
+                is_last_section = nr == len(process_pipeline_sections) - 1
+                constraint_position = -2 if is_last_section else -1
+                target_process_unit_id = pipeline_section.get_process_units()[constraint_position].get_id()
                 # TODO: The mapped_section.target_process_unit_id is incorrect, as that is before we apply ASV and Pressure Control ...
                 try:
                     constraint = Constraint(
-- 
2.43.0

