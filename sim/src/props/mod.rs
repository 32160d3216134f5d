pub mod adsb;
pub mod almanac;
pub mod air;
pub mod fitted;
pub mod stored;
pub mod dynx;
pub mod elsets;
pub mod est;
pub mod events;
pub mod frames;
pub mod mission;
pub mod orbits;
pub mod orient;
pub mod podio;
pub mod readers;
pub mod sky;
pub mod solar;
pub mod spice;
pub mod tle;
pub mod visibility;
pub mod writers;

use crate::Prop;

pub static ALL: &[&Prop] = &[&readers::C01, &readers::C02, &readers::C03, &readers::C04, &readers::C26,
    &writers::C05,
    &writers::C06,
    &podio::C07,
    &podio::C08,
    &spice::C09,
    &spice::C10,
    &spice::C11,
    &adsb::C12,
    &adsb::C13,
    &adsb::C14, &tle::C15,
    &est::C16,
    &est::C17,
    &dynx::C18,
    &dynx::C19,
    &dynx::C20,
    &mission::C21,
    &mission::C22,
    &mission::C23,
    &events::C24,
    &orient::C25,
    &visibility::C27,
    &frames::C28,
    &orbits::C29,
    &elsets::C30,
    &sky::C31,
    &solar::C32,
    &almanac::C33,
    &stored::C34,
    &air::C35,
    &fitted::C36,
];
