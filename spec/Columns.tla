------------------------------ MODULE Columns ------------------------------
(* The columns of the prognosis exports (LTP and STP): identifier, heading, unit, the quantity reported and the filters on it
   (installation category, fuel category, categories of consumer and producer, emission; empty means any).  Columns restricted to
   another category of installation are left out of an installation's file.                                                   *)
LTP == <<
  [id |-> "turbineFuelGasConsumption", title |-> "Fuel Consumption", unit |-> "Sm3", q |-> "fuel", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR">>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "flareGasConsumption", title |-> "Flare Gas", unit |-> "Sm3", q |-> "fuel", inst |-> "FIXED", fuel |-> "", cons |-> <<"FLARE">>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "engineDieselConsumption", title |-> "Diesel Consumption", unit |-> "L", q |-> "fuel", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "engineNoCo2TaxDieselConsumption", title |-> "No CO2 Tax Diesel Consumption", unit |-> "L", q |-> "fuel", inst |-> "MOBILE", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "boilerFuelGasConsumption", title |-> "Boiler Fuel Consumption", unit |-> "Sm3", q |-> "fuel", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "boilerDieselConsumption", title |-> "Boiler Diesel Consumption", unit |-> "L", q |-> "fuel", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "heaterFuelGasConsumption", title |-> "Heater Fuel Consumption", unit |-> "Sm3", q |-> "fuel", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "heaterDieselConsumption", title |-> "Heater Diesel Consumption", unit |-> "L", q |-> "fuel", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "turbineFuelGasCo2Mass", title |-> "CO2 From Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR">>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "flareGasCo2Mass", title |-> "CO2 From Flare", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"FLARE">>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "engineDieselCo2Mass", title |-> "CO2 From Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "engineNoCo2TaxDieselCo2Mass", title |-> "CO2 From Diesel No CO2 Tax", unit |-> "t", q |-> "emission", inst |-> "MOBILE", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "boilerFuelGasCo2Mass", title |-> "CO2 From Boiler Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "boilerDieselCo2Mass", title |-> "CO2 From Boiler Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "heaterFuelGasCo2Mass", title |-> "CO2 From Heater Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "heaterDieselCo2Mass", title |-> "CO2 From Heater Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "co2VentingMass", title |-> "CO2 From Cold Venting Fugitives", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"COLD-VENTING-FUGITIVE">>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "turbineFuelGasNoxMass", title |-> "NOX From Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR">>, prod |-> <<>>, em |-> "nox", neg |-> FALSE],
  [id |-> "flareGasNoxMass", title |-> "NOX From Flare", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"FLARE">>, prod |-> <<>>, em |-> "nox", neg |-> FALSE],
  [id |-> "engineDieselNoxMass", title |-> "NOX From Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "nox", neg |-> FALSE],
  [id |-> "engineNoCo2TaxDieselNoxMass", title |-> "NOX From Diesel", unit |-> "t", q |-> "emission", inst |-> "MOBILE", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "nox", neg |-> FALSE],
  [id |-> "boilerFuelGasNoxMass", title |-> "NOX From Boiler Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "nox", neg |-> FALSE],
  [id |-> "boilerDieselNoxMass", title |-> "NOX From Boiler Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "nox", neg |-> FALSE],
  [id |-> "heaterFuelGasNoxMass", title |-> "NOX From Heater Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "nox", neg |-> FALSE],
  [id |-> "heaterDieselNoxMass", title |-> "NOX From Heater Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "nox", neg |-> FALSE],
  [id |-> "turbineFuelGasNmvocMass", title |-> "NMVOC From Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "flareGasNmvocMass", title |-> "NMVOC From Flare", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"FLARE">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "engineDieselNmvocMass", title |-> "NMVOC From Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "engineNoCo2TaxDieselNmvocMass", title |-> "NMVOC From Diesel", unit |-> "t", q |-> "emission", inst |-> "MOBILE", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "boilerFuelGasNmvocMass", title |-> "NMVOC From Boiler Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "boilerDieselNmvocMass", title |-> "NMVOC From Boiler Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "heaterFuelGasNmvocMass", title |-> "NMVOC From Heater Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "heaterDieselNmvocMass", title |-> "NMVOC From Heater Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "coldVentAndFugitivesNmvocMass", title |-> "NMVOC From Cold Venting Fugitives", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"COLD-VENTING-FUGITIVE">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "coldVentAndFugitivesNoCo2TaxNmvocMass", title |-> "NMVOC From Cold Venting Fugitives", unit |-> "t", q |-> "emission", inst |-> "MOBILE", fuel |-> "", cons |-> <<"COLD-VENTING-FUGITIVE">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "storageNmvocMass", title |-> "NMVOC From Storage", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"STORAGE">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "loadingNmvocMass", title |-> "NMVOC From Loading", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"LOADING">>, prod |-> <<>>, em |-> "nmvoc", neg |-> FALSE],
  [id |-> "turbineFuelGasCh4Mass", title |-> "CH4 From Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "flareGasCh4Mass", title |-> "CH4 From Flare", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"FLARE">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "engineDieselCh4Mass", title |-> "CH4 From Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "engineNoCo2TaxDieselCh4Mass", title |-> "CH4 From Diesel No CO2 Tax", unit |-> "t", q |-> "emission", inst |-> "MOBILE", fuel |-> "DIESEL", cons |-> <<>>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "boilerFuelGasCh4Mass", title |-> "CH4 From Boiler Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "boilerDieselCh4Mass", title |-> "CH4 From Boiler Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"BOILER">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "heaterFuelGasCh4Mass", title |-> "CH4 From Heater Fuel Gas", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "FUEL-GAS", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "heaterDieselCh4Mass", title |-> "CH4 From Heater Diesel", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "DIESEL", cons |-> <<"HEATER">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "coldVentAndFugitivesCh4Mass", title |-> "CH4 From Cold Venting Fugitives", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"COLD-VENTING-FUGITIVE">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "coldVentAndFugitivesNoCo2TaxCh4Mass", title |-> "CH4 From Cold Venting Fugitives", unit |-> "t", q |-> "emission", inst |-> "MOBILE", fuel |-> "", cons |-> <<"COLD-VENTING-FUGITIVE">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "storageCh4Mass", title |-> "CH4 From Storage", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"STORAGE">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "loadingCh4Mass", title |-> "CH4 From Loading", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"LOADING">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "loadedAndStoredOil", title |-> "Total Oil Loaded/Stored", unit |-> "Sm3", q |-> "oil", inst |-> "FIXED", fuel |-> "", cons |-> <<"LOADING">>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "gasTurbineGeneratorConsumption", title |-> "Total Electricity Generated", unit |-> "GWh", q |-> "generated", inst |-> "FIXED", fuel |-> "", cons |-> <<>>, prod |-> <<"TURBINE-GENERATOR">>, em |-> "", neg |-> FALSE],
  [id |-> "gasTurbineCompressorConsumption", title |-> "Total Power Consumed By Gas-Turbine Driven Compressors", unit |-> "GWh", q |-> "power", inst |-> "FIXED", fuel |-> "", cons |-> <<"GAS-DRIVEN-COMPRESSOR">>, prod |-> <<>>, em |-> "", neg |-> FALSE],
  [id |-> "offshoreWindConsumption", title |-> "Total Electricity Consumed From Offshore Wind", unit |-> "GWh", q |-> "power", inst |-> "FIXED", fuel |-> "", cons |-> <<"OFFSHORE-WIND">>, prod |-> <<>>, em |-> "", neg |-> TRUE],
  [id |-> "fromShoreConsumption", title |-> "Total Electricity Consumed From Power-From-Shore", unit |-> "GWh", q |-> "power", inst |-> "", fuel |-> "", cons |-> <<>>, prod |-> <<"POWER-FROM-SHORE">>, em |-> "", neg |-> FALSE],
  [id |-> "powerSupplyOnshore", title |-> "Power Supply Onshore", unit |-> "GWh", q |-> "generated", inst |-> "", fuel |-> "", cons |-> <<>>, prod |-> <<"POWER-FROM-SHORE">>, em |-> "", neg |-> FALSE],
  [id |-> "fromShorePeakMaximum", title |-> "Max Usage from Shore", unit |-> "MW", q |-> "maxshore", inst |-> "", fuel |-> "", cons |-> <<>>, prod |-> <<"POWER-FROM-SHORE">>, em |-> "", neg |-> FALSE],
  [id |-> "steamTurbineGeneratorConsumption", title |-> "Total Electricity Consumed From Steam Turbine Generators", unit |-> "GWh", q |-> "power", inst |-> "FIXED", fuel |-> "", cons |-> <<"STEAM-TURBINE-GENERATOR">>, prod |-> <<>>, em |-> "", neg |-> TRUE]
>>
STP == <<
  [id |-> "co2Emission", title |-> "Total CO2", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<>>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "co2FromMobileUnits", title |-> "Total CO2", unit |-> "t", q |-> "emission", inst |-> "MOBILE", fuel |-> "", cons |-> <<>>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "methaneEmission", title |-> "Total CH4", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<>>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "flareGasCo2Mass", title |-> "CO2 From Flare", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"FLARE">>, prod |-> <<>>, em |-> "co2", neg |-> FALSE],
  [id |-> "flareGasCh4Mass", title |-> "CH4 From Flare", unit |-> "t", q |-> "emission", inst |-> "FIXED", fuel |-> "", cons |-> <<"FLARE">>, prod |-> <<>>, em |-> "ch4", neg |-> FALSE],
  [id |-> "powerSupplyOnshore", title |-> "Power Supply Onshore", unit |-> "GWh", q |-> "generated", inst |-> "", fuel |-> "", cons |-> <<>>, prod |-> <<"POWER-FROM-SHORE">>, em |-> "", neg |-> FALSE],
  [id |-> "flare", title |-> "Flare", unit |-> "Sm3", q |-> "fuel", inst |-> "FIXED", fuel |-> "", cons |-> <<"FLARE">>, prod |-> <<>>, em |-> "", neg |-> FALSE]
>>
=============================================================================
