pub mod verif {}
